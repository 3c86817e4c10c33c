//! Open and save reaches a fixed point.
use super::common::*;
use crate::books;
use crate::env;
use crate::opc;
use crate::sim::*;
use std::sync::Arc;

/// What is done between opening and saving; none of it is a change.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cyc {
    Plain,
    First,
    Last,
    All,
    AllHeld,
    Twice,
    List,
    Missing,
    Refused,
    StyleAgain,
}
pub const CYCS: &[Cyc] = &[Cyc::Plain, Cyc::First, Cyc::Last, Cyc::All, Cyc::AllHeld, Cyc::Twice, Cyc::List, Cyc::Missing, Cyc::Refused, Cyc::StyleAgain];

/// One cycle. `norm`: only get the file into the library's own form.
pub fn cycle(bytes: &[u8], c: Cyc, sc: &Scratch) -> Result<Vec<u8>, String> {
    let p = sc.put("xlsx", bytes);
    let mut x = match open(Some(&p)) {
        Res::Ok(x) => x,
        r => return Err(format!("open: {}", r.show())),
    };
    let names = match x.list() {
        Res::Ok(n) => n,
        r => return Err(format!("list: {}", r.show())),
    };
    fn get(x: &mut Xl, n: &str) -> Result<WorkSheet, String> {
        match x.get(n) {
            Res::Ok(w) => Ok(w),
            r => Err(format!("get {n:?}: {}", r.show())),
        }
    }
    fn rel(w: WorkSheet) -> Result<(), String> {
        match ws_drop(w) {
            None => Ok(()),
            Some(p) => Err(p),
        }
    }
    match c {
        Cyc::Plain => {}
        Cyc::First => {
            if let Some(n) = names.first() {
                rel(get(&mut x, n)?)?;
            }
        }
        Cyc::Last => {
            if let Some(n) = names.last() {
                rel(get(&mut x, n)?)?;
            }
        }
        Cyc::All => {
            for n in &names {
                rel(get(&mut x, n)?)?;
            }
        }
        Cyc::AllHeld => {
            let mut v = vec![];
            for n in names.iter().rev() {
                v.push(get(&mut x, n)?);
            }
            for w in v {
                rel(w)?;
            }
        }
        Cyc::Twice => {
            for _ in 0..2 {
                for n in &names {
                    rel(get(&mut x, n)?)?;
                }
            }
        }
        Cyc::List => {
            let _ = x.list();
            let _ = x.list();
        }
        Cyc::Missing => {
            if x.rename("no such sheet", "x").is_ok() || x.active("no such sheet").is_ok() || x.hide("no such sheet").is_ok() {
                return Err("a call for a sheet that is not there succeeded".into());
            }
            if let Some(n) = names.first() {
                // refused, or the sheet that is there
                if let Res::Ok(w) = x.add(Some(n)) {
                    rel(w)?;
                }
            }
        }
        Cyc::Refused => {
            for n in &names {
                let mut w = get(&mut x, n)?;
                let r = ws_call(&mut w, |w| w.set_row_value_ref_mut("A0", vec![cell("7", CellDataType::Number)]));
                let r2 = ws_call(&mut w, |w| w.set_row_value_index_mut(1, 16384, vec![cell("7", CellDataType::Number), cell("never seen", CellDataType::ShareString)]));
                let r3 = ws_call(&mut w, |w| w.set_column_index_properties_mut(&0, None));
                rel(w)?;
                if r.is_ok() || r2.is_ok() || r3.is_ok() {
                    return Err("a bad address was accepted".into());
                }
            }
        }
        Cyc::StyleAgain => {}
    }
    if c == Cyc::StyleAgain {
        // the first settings asked for in the edits below: asking again must not add records once they are there
        for k in 0..2 {
            if let r @ (Res::Err(_) | Res::Panic(_)) = x.style(style(k)) {
                return Err(format!("style: {}", r.show()));
            }
        }
    }
    let r = x.save_bytes(sc);
    let _ = std::fs::remove_file(p);
    match r {
        Res::Ok(b) => Ok(b),
        r => Err(format!("save: {}", r.show())),
    }
}
fn entries(b: &[u8]) -> usize {
    Package::read(b).map(|p| p.parts.len()).unwrap_or(0)
}
/// What differs, the order of relationships included: a cycle may not reorder anything.
fn same(a: &Package, b: &Package) -> Vec<String> {
    let mut v = pkg_diff(a, b, true);
    for n in a.parts.keys() {
        if let Some(s) = opc::rels_source(n) {
            let ids = |p: &Package| p.rels(&s).map(|v| v.into_iter().map(|r| r.id).collect::<Vec<_>>()).unwrap_or_default();
            let (x, y) = (ids(a), ids(b));
            if x != y && b.parts.contains_key(n) && v.is_empty() {
                v.push(format!("relationships of {s:?} are in another order: {x:?} {y:?}"));
            }
        }
    }
    v
}
/// `base` is a saved file: each cycle in turn must give the same package.
fn fixed(base: &[u8], cycs: &[Cyc], sc: &Scratch, out: &mut Out) {
    let Ok(a) = Package::read(base) else {
        out.bad("the saved file cannot be read");
        return;
    };
    let mut cur = base.to_vec();
    let mut styled = false;
    let mut a = a;
    for (i, c) in cycs.iter().enumerate() {
        env::set_clock(1_700_000_000 + 86_400 * i as i64);
        out.transitions += 1;
        match cycle(&cur, *c, sc) {
            Err(e) => {
                out.bad(format!("cycle {} ({c:?}): {e}", i + 1));
                return;
            }
            Ok(b) => {
                match Package::read(&b) {
                    Err(e) => {
                        out.bad(format!("cycle {} ({c:?}): {e}", i + 1));
                        return;
                    }
                    Ok(p) => {
                        if *c == Cyc::StyleAgain && !styled {
                            // the first time is an edit
                            styled = true;
                            a = p;
                        } else {
                            for d in same(&a, &p) {
                                out.bad(format!("cycle {} ({c:?}): {d}", i + 1));
                            }
                        }
                    }
                }
                out.states.push(h64(&(i, b.len())));
                cur = b;
            }
        }
    }
}
/// A file that came from elsewhere: its sheets are brought into the library's own form first.
fn foreign(kind: DocKind, src: &[u8], cycs: &[Cyc], sc: &Scratch) -> Out {
    let mut out = Out { nontrivial: true, ..Default::default() };
    env::set_clock(1_600_000_000);
    let base = if kind == DocKind::Excel { cycle(src, Cyc::All, sc) } else { two(kind, src, sc) };
    match base {
        Err(e) => {
            // refused as a whole: not a saved file
            out.nontrivial = false;
            if e.contains("panic") {
                out.bad(e);
            }
        }
        Ok(b) => {
            if kind == DocKind::Excel {
                fixed(&b, cycs, sc, &mut out)
            } else {
                let a = Package::read(&b).expect("saved file");
                let mut cur = b;
                for i in 0..cycs.len() {
                    env::set_clock(1_700_000_000 + 86_400 * i as i64);
                    out.transitions += 1;
                    match two(kind, &cur, sc) {
                        Ok(n) => {
                            match Package::read(&n) {
                                Ok(p) => {
                                    for d in same(&a, &p) {
                                        out.bad(format!("cycle {}: {d}", i + 1));
                                    }
                                }
                                Err(e) => out.bad(e),
                            }
                            cur = n;
                        }
                        Err(e) => out.bad(e),
                    }
                }
            }
        }
    }
    out.outcome = out.states.first().copied().unwrap_or(0);
    out
}
fn two(kind: DocKind, src: &[u8], sc: &Scratch) -> Result<Vec<u8>, String> {
    match resave(kind, Some(src), sc) {
        Res::Ok(b) => Ok(b),
        r => Err(r.show()),
    }
}
pub fn check(deep: bool) -> Check {
    let mut spaces = vec![];
    let nc = CYCS.len() as u64;
    // files in all forms x cycle sequences
    let mut files: Vec<(String, DocKind, Vec<u8>)> = vec![];
    for (n, b) in super::c01::forms() {
        files.push((n.to_string(), DocKind::Excel, b));
    }
    files.push(("plain".into(), DocKind::Excel, books::plain().zip()));
    files.push(("rich".into(), DocKind::Excel, books::rich().zip()));
    let files = Arc::new(files);
    {
        let d = if deep { 4 } else { 2 };
        let per = seq_total(nc, d);
        let (f, f2) = (files.clone(), files.clone());
        spaces.push(Space::new(
            "foreign-files",
            &format!("{} files of all forms, brought into the library's form, then every sequence of up to {d} cycles of open, {nc} ways of changing nothing, save", files.len()),
            per * files.len() as u64,
            move |i| format!("{}: {:?}", f2[(i / per) as usize].0, seq_at(nc, i % per).iter().map(|j| CYCS[*j as usize]).collect::<Vec<_>>()),
            move |i, sc| {
                let v: Vec<Cyc> = seq_at(nc, i % per).iter().map(|j| CYCS[*j as usize]).collect();
                let x = &f[(i / per) as usize];
                foreign(x.1, &x.2, &v, sc)
            },
        ));
    }
    // documents and presentations
    {
        let cores: Vec<Option<&'static str>> = vec![None, Some(fx::CORE)];
        let mut docs: Vec<(String, DocKind, Vec<u8>)> = vec![];
        for word in [true, false] {
            for (i, c) in cores.iter().enumerate() {
                let kind = if word { DocKind::Word } else { DocKind::Ppt };
                docs.push((format!("{kind:?}, core properties {i}"), kind, fx::doc_pkg(word, *c).zip()));
                let mut p = fx::doc_pkg(word, *c);
                p.part("customXml/item1.xml", Some("application/xml"), "<?xml version='1.0'?><a:b xmlns:a='urn:x'><a:c/> x </a:b>");
                p.part("word/media/i.png", Some("image/png"), "\u{1}\u{2}binary");
                p.rel("", "rIdC", "urn:custom", "customXml/item1.xml", false);
                p.rel("", "rIdX", "urn:ext", "http://example.org/a?b=c&d", true);
                docs.push((format!("{kind:?} with more parts, core properties {i}"), kind, p.zip()));
            }
        }
        let docs = Arc::new(docs);
        let (d2, per) = (docs.clone(), 5u64);
        spaces.push(Space::new(
            "documents",
            "text documents and presentations, up to five cycles",
            per * docs.len() as u64,
            move |i| format!("{}: {} cycles", d2[(i / per) as usize].0, i % per + 1),
            move |i, sc| {
                let x = &docs[(i / per) as usize];
                foreign(x.1, &x.2, &vec![Cyc::Plain; (i % per) as usize + 1], sc)
            },
        ));
    }
    // every short edit history, then cycles
    {
        let ops: Vec<Op> = vec![
            Op::On("A", Act::Put(2, 2, vec![txt("alpha"), txt(" new "), num("4")], false)),
            Op::On("A", Act::Put(1, 1, vec![fml("B1+1").st(0), CS { t: CellDataType::InlineString, ..txt("in") }, none()], false)),
            Op::On("A", Act::Row(3, RS { ht: Some(21.5), hidden: Some(true), style: Some(1), ..Default::default() })),
            Op::On("A", Act::Col(2, Some(ColS { width: Some(4.25), style: Some(0), ..Default::default() }), false)),
            Op::On("A", Act::Col(5, None, false)),
            Op::AddDrop(Some("N")),
            Op::On("N", Act::Put(1, 3, vec![txt("x"), txt("x")], false)),
            Op::DelName("B"),
            Op::DelName("A"),
            Op::Rename("A", "R & \"D\""),
            Op::Hide("A"),
            Op::Active("B"),
            Op::Active("N"),
            Op::Tabs(true),
            Op::Min(true),
            Op::Vis(false),
            Op::Style(2),
            Op::Reopen,
        ];
        let depth = if deep { 4 } else { 3 };
        let seqs = Arc::new(sequences(&ops, depth));
        let srcs: Arc<Vec<(&'static str, Option<Vec<u8>>)>> = Arc::new(vec![("plain", Some(books::plain().zip())), ("rich", Some(books::rich().zip())), ("new", None)]);
        let ends: Vec<Vec<Cyc>> = vec![vec![Cyc::Plain, Cyc::All, Cyc::AllHeld, Cyc::Refused, Cyc::StyleAgain, Cyc::StyleAgain, Cyc::Twice]];
        let ops = Arc::new(ops);
        let (s2, q2, o2) = (srcs.clone(), seqs.clone(), ops.clone());
        let n = srcs.len() as u64;
        spaces.push(Space::new(
            "edited-files",
            &format!("every history of up to {depth} of {} edits from 3 sources (in a new workbook the sheets A and B are made first), saved, then seven cycles that change nothing", ops.len()),
            seqs.len() as u64 * n,
            move |i| show_ops(s2[(i % n) as usize].0, &q2[(i / n) as usize].iter().map(|j| o2[*j as usize].clone()).collect::<Vec<_>>()),
            move |i, sc| {
                // in the library's form already, so that also sheets that are never opened can be compared
                let k = (i % n) as usize;
                env::set_clock(1_500_000_000);
                let src = srcs[k].1.as_deref().and_then(|b| cycle(b, Cyc::All, sc).ok());
                let src = src.as_deref();
                if src.is_none() && srcs[k].1.is_some() {
                    return Out::default();
                }
                let mut v: Vec<Op> = vec![];
                if src.is_none() {
                    v.push(Op::AddDrop(Some("A")));
                    v.push(Op::AddDrop(Some("B")));
                }
                v.extend(seqs[(i / n) as usize].iter().map(|j| ops[*j as usize].clone()));
                let mut s = Sim::new(src, 0, sc);
                for op in &v {
                    if !s.step(op) {
                        return Out::default();
                    }
                }
                let mut out = Out { nontrivial: true, ..Default::default() };
                env::set_clock(1_600_000_000);
                let Some(b) = s.save() else {
                    // refused or failed: other properties decide that
                    return Out::default();
                };
                fixed(&b, &ends[0], sc, &mut out);
                out.outcome = h64(&b.len());
                out
            },
        ));
    }
    // sheets of all elements, many cycles
    {
        let reps = if deep { 40 } else { 12 };
        let (f, f2) = (files.clone(), files.clone());
        spaces.push(Space::new(
            "long-run",
            &format!("every file, {reps} cycles of each kind in a row"),
            nc * files.len() as u64,
            move |i| format!("{}: {:?} {reps} times", f2[(i / nc) as usize].0, CYCS[(i % nc) as usize]),
            move |i, sc| {
                let x = &f[(i / nc) as usize];
                foreign(x.1, &x.2, &vec![CYCS[(i % nc) as usize]; reps], sc)
            },
        ));
    }
    // one element or attribute of a sheet at a time
    for (name, bound, total, make) in super::c14::source_kinds(if deep { 3 } else { 2 }) {
        let m2 = make.clone();
        spaces.push(Space::new(
            name,
            &format!("{bound}; brought into the library's form, then four cycles"),
            total,
            move |i| m2(i).0,
            move |i, sc| foreign(DocKind::Excel, &make(i).1, &[Cyc::Plain, Cyc::All, Cyc::AllHeld, Cyc::Plain], sc),
        ));
    }
    Check {
        id: "C13",
        level: "model_checking",
        rule: "a case is a saved file (of a foreign source, or of an edit history) followed by a sequence of cycles open, do nothing that is a change, save; after each cycle the whole package is compared with the one before (part names, content types, relationships, content by information); distinct by file and sequence",
        assumptions: vec!["a file from elsewhere is first saved once with its sheets opened; asking for the formats of two settings for the first time is an edit", "the modification time in the core properties may change"],
        spaces,
    }
}
