//! A document of the strict conformance class is treated like its transitional twin and stays strict.
use super::c19::{solo, Hist, Ran, CLOCK};
use super::common::*;
use crate::books;
use crate::fx;
use crate::sim::*;
use crate::zipio::{read_zip, write_zip};

const NAMES: [(&str, &str); 3] = [
    ("http://schemas.openxmlformats.org/officeDocument/2006/relationships", "http://purl.oclc.org/ooxml/officeDocument/relationships"),
    ("http://schemas.openxmlformats.org/spreadsheetml/2006/main", "http://purl.oclc.org/ooxml/spreadsheetml/main"),
    ("http://schemas.openxmlformats.org/drawingml/2006/main", "http://purl.oclc.org/ooxml/drawingml/main"),
];
fn is_text(n: &str) -> bool {
    n.ends_with(".xml") || n.ends_with(".rels")
}
fn names(p: &mut Package, strict: bool) {
    for (n, d) in p.parts.iter_mut() {
        if let (true, Ok(t)) = (is_text(n), std::str::from_utf8(d)) {
            let mut t = t.to_string();
            for (a, b) in NAMES {
                t = if strict { t.replace(a, b) } else { t.replace(b, a) };
            }
            *d = t.into_bytes();
        }
    }
}
pub fn strict_of(zip: &[u8]) -> Vec<u8> {
    let mut p = Package::read(zip).expect("harness: source");
    names(&mut p, true);
    let entries = read_zip(zip).expect("harness: source");
    write_zip(&entries.into_iter().map(|e| { let d = p.parts.remove(&e.name).unwrap_or(e.data); (e.name, d) }).collect::<Vec<_>>())
}
fn mixed(p: &Package) -> Option<String> {
    for (n, d) in &p.parts {
        if let (true, Ok(t)) = (is_text(n), std::str::from_utf8(d)) {
            // properties of the package and of other applications have no strict form here
            for (a, _) in NAMES {
                if t.contains(a) {
                    return Some(format!("{n} of a strict document has the transitional name {a}"));
                }
            }
        }
    }
    None
}
fn compare(a: &Ran, b: &Ran, what: &str, out: &mut Out) {
    if a.log != b.log {
        let i = (0..a.log.len().max(b.log.len())).find(|i| a.log.get(*i) != b.log.get(*i)).unwrap_or(0);
        out.bad(format!("{what}: call {i} answers {:?} for the transitional document and {:?} for the strict one", a.log.get(i), b.log.get(i)));
        return;
    }
    match (&a.saved, &b.saved) {
        (None, None) => {}
        (Some(x), Some(y)) => match (Package::read(x), Package::read(y)) {
            (Ok(x), Ok(mut y)) => {
                if let Some(m) = mixed(&y) {
                    out.bad(format!("{what}: {m}"));
                }
                names(&mut y, false);
                let twin = x.validate(None);
                for m in y.validate(None).into_iter().filter(|m| !twin.contains(m)) {
                    out.bad(format!("{what}: strict document: {m}"));
                }
                for m in pkg_diff(&x, &y, true) {
                    out.bad(format!("{what}: transitional and strict document are saved differently: {m}"));
                }
            }
            (x, y) => out.bad(format!("{what}: {}", x.err().or(y.err()).unwrap_or_default())),
        },
        _ => out.bad(format!("{what}: only one of the two documents was saved")),
    }
}
fn alphabet() -> Vec<Op> {
    vec![
        Op::On("A", Act::Put(2, 2, vec![num("5"), txt("alpha"), txt("new")], false)),
        Op::On("A", Act::Put(1, 1, vec![none(), fml("B1*2").st(0), none()], false)),
        Op::On("B", Act::Put(7, 3, vec![fml("1").st(2)], false)),
        Op::On("A", Act::Col(3, Some(ColS { width: Some(9.0), style: Some(1), ..Default::default() }), false)),
        Op::AddDrop(None),
        Op::AddDrop(Some("N")),
        Op::On("N", Act::Put(1, 1, vec![txt("n")], false)),
        Op::DelName("A"),
        Op::DelName("B"),
        Op::Rename("A", "M"),
        Op::Active("B"),
        Op::Tabs(true),
        Op::Style(4),
    ]
}
pub fn space(deep: bool) -> Space {
    let mut srcs = vec![("plain", books::plain().zip()), ("rich", books::rich().zip()), ("few tables", fx::Wb::new(&["A", "B"]).zip())];
    // parts under other names than the library's own
    srcs.push(("renamed tables", {
        let mut p = books::plain().pkg();
        for (a, b) in [("xl/styles.xml", "xl/looks/s1.xml"), ("xl/sharedStrings.xml", "xl/t.xml")] {
            if p.parts.iter().any(|(n, _)| n == a) {
                super::c01::move_part(&mut p, a, b);
            }
        }
        p.zip()
    }));
    let ops = alphabet();
    let n = ops.len() as u64;
    let len = if deep { 3 } else { 2 };
    let per: u64 = (0..=len).map(|k| n.pow(k)).sum();
    let decode = move |mut i: u64| -> Vec<usize> {
        let mut k = 0;
        while i >= n.pow(k) {
            i -= n.pow(k);
            k += 1;
        }
        (0..k).map(|_| { let d = (i % n) as usize; i /= n; d }).collect()
    };
    let names: Vec<&'static str> = srcs.iter().map(|s| s.0).collect();
    let (o1, n1) = (alphabet(), names.clone());
    Space::new(
        "strict",
        "every sequence of calls on a document of the strict conformance class and on its transitional twin",
        per * srcs.len() as u64,
        move |i| format!("{}: {:?}", n1[(i / per) as usize], decode(i % per).iter().map(|k| &o1[*k]).collect::<Vec<_>>()),
        move |i, sc| {
            let mut out = Out::default();
            let src = &srcs[(i / per) as usize].1;
            let seq: Vec<Op> = decode(i % per).iter().map(|k| ops[*k].clone()).collect();
            let (mut a, mut b) = (src.clone(), strict_of(src));
            for (round, ops) in [seq, vec![]].into_iter().enumerate() {
                let h = |s: Vec<u8>| Hist { name: "", kind: DocKind::Excel, src: Some(s), ops: ops.clone() };
                let x = solo(&h(a), &sc.file("a"), i + 1, CLOCK, false).remove(0);
                let y = solo(&h(b), &sc.file("b"), i + 1, CLOCK, false).remove(0);
                out.runs += 2;
                out.transitions += 2 * (ops.len() as u64 + 2);
                compare(&x, &y, if round == 0 { "first cycle" } else { "second cycle" }, &mut out);
                let (Some(p), Some(q)) = (x.saved, y.saved) else { break };
                out.states.push(h64(&q));
                (a, b) = (p, q);
            }
            out
        },
    )
}
