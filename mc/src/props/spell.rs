//! A number or truth value means the same in each of its lexical forms: the document says the same
//! after the same calls.
use super::c18::{tags, Tag};
use super::c19::{solo, Hist, Ran, CLOCK};
use super::common::*;
use crate::books;
use crate::sim::*;
use crate::zipio::{read_zip, write_zip};
use std::sync::{Arc, OnceLock};

/// Attributes with a truth value, of all elements that occur in the sources.
const BOOLS: &[&str] = &[
    "customWidth", "hidden", "bestFit", "phonetic", "collapsed", "customHeight", "customFormat", "thickTop", "thickBot", "ph", "aca", "dt2D", "dtr", "ca", "bx", "del1", "del2", "showGridLines", "tabSelected",
    "rightToLeft", "zeroHeight", "summaryBelow", "fitToPage", "filterMode", "sheet", "objects", "blank", "allowBlank", "gridLines", "man", "numberStoredAsText", "fullCalcOnLoad", "minimized", "autoFilterDateGrouping",
    "showHorizontalScroll", "showVerticalScroll", "showSheetTabs", "date1904", "readOnlyRecommended", "lockStructure", "iterate", "quotePrefix", "pivotButton", "applyNumberFormat", "applyFont", "applyFill", "applyBorder",
    "applyAlignment", "applyProtection", "wrapText", "shrinkToFit", "locked", "diagonalUp", "diagonalDown", "outline", "auto", "l", "s", "a", "t",
];
/// Elements whose `val` is a truth value.
const BOOL_VAL: &[&str] = &["b", "i", "strike", "condense", "extend", "shadow", "outline"];
/// Attributes that are text or lists even when they look like a number.
const NOT: &[&str] = &["rgb", "appName", "rupBuild", "lastEdited", "lowestEdited", "name", "uri", "sqref", "ref", "activeCell", "topLeftCell", "codeName", "operator", "url", "spans", "lastClr", "hashValue", "saltValue", "r1", "r2", "Requires"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Bool,
    Int,
    Real,
}
fn local(n: &[u8]) -> &str {
    let n = std::str::from_utf8(n).unwrap_or("").trim();
    n.rsplit(':').next().unwrap_or(n)
}
fn kind(part: &str, el: &str, at: &str, v: &str) -> Option<Kind> {
    if at.starts_with("xmlns") || NOT.contains(&at) {
        return None;
    }
    let chain = part.contains("calcChain");
    // the letters are truth values in a calculation chain, and other things elsewhere
    let letter = at.len() == 1 && at != "r" && at != "i";
    if (BOOLS.contains(&at) && (!letter || chain)) || (at == "val" && BOOL_VAL.contains(&el)) {
        return matches!(v, "0" | "1" | "true" | "false").then_some(Kind::Bool);
    }
    if (at == "t" || at == "r" && el == "c") && !chain {
        return None;
    }
    if v.is_empty() || !v.bytes().all(|c| c.is_ascii_digit() || c == b'.' || c == b'-') {
        return None;
    }
    let real = matches!(at, "width" | "ht" | "defaultRowHeight" | "baseColWidth_" | "tint" | "position" | "degree" | "left" | "right" | "top" | "bottom" | "header" | "footer" | "dyDescent" | "xSplit" | "ySplit") || (at == "val" && el == "sz");
    Some(if real || v.contains('.') { Kind::Real } else { Kind::Int })
}
const FORMS: usize = 3;
fn form(k: Kind, v: &str, f: usize) -> Option<String> {
    Some(match (k, f) {
        (Kind::Bool, 0) => (if v == "1" { "true" } else { "false" }).into(),
        (Kind::Bool, 1) => format!(" {v} "),
        (Kind::Bool, _) => format!("\n{}", if v == "1" { "true" } else { "false" }),
        (Kind::Int, 0) => match v.strip_prefix('-') { Some(d) => format!("-0{d}"), None => format!("0{v}") },
        (Kind::Int, 1) => format!(" {v} "),
        (Kind::Int, _) => if v.starts_with('-') { return None } else { format!("+{v}") },
        (Kind::Real, 0) => if v.contains('.') { format!("{v}00") } else { format!("{v}.0") },
        (Kind::Real, 1) => format!(" {v} "),
        (Kind::Real, _) => format!("{v}e0"),
    })
}
fn norm(v: &str) -> String {
    let t = v.trim();
    match t {
        "true" => "1".into(),
        "false" => "0".into(),
        _ if !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit() || b"+-.eE".contains(&c)) && t.bytes().any(|c| c.is_ascii_digit()) => t.parse::<f64>().map(|x| format!("{x}")).unwrap_or(v.into()),
        _ => v.into(),
    }
}
/// Every number and truth value in one form.
fn normal(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut at = 0;
    let t = tags(d);
    for g in &t {
        for a in &g.attrs {
            o.extend_from_slice(&d[at..a.2]);
            o.extend_from_slice(norm(&String::from_utf8_lossy(&d[a.2..a.3])).as_bytes());
            at = a.3;
        }
        if g.open && !g.close && local(&d[g.name.0..g.name.1]) == "v" {
            let m = &t[g.mate];
            o.extend_from_slice(&d[at..g.e]);
            o.extend_from_slice(norm(&String::from_utf8_lossy(&d[g.e..m.s])).as_bytes());
            at = m.s;
        }
    }
    o.extend_from_slice(&d[at..]);
    o
}
fn normal_zip(z: &[u8]) -> Result<Package, String> {
    let mut p = Package::read(z)?;
    for (n, d) in p.parts.iter_mut() {
        if ["worksheets/", "workbook.xml", "styles.xml", "sharedStrings.xml", "calcChain.xml"].iter().any(|x| n.contains(x)) && !n.ends_with(".rels") {
            if crate::xml::parse(d).is_err() {
                return Err(format!("part {n} is not well-formed"));
            }
            *d = normal(d);
        }
    }
    Ok(p)
}
struct Spot {
    src: usize,
    entry: usize,
    at: (usize, usize),
    to: String,
    what: String,
}
fn edits() -> Vec<(&'static str, Vec<Op>)> {
    let a = |x: Act| Op::On("A", x);
    vec![
        ("nothing", vec![a(Act::Nop)]),
        ("write over and beside", vec![a(Act::Put(1, 1, vec![num("7"), txt("alpha").st(1)], false)), a(Act::Put(3, 2, vec![none(), txt("new")], true))]),
        ("write between", vec![a(Act::Put(5, 2, vec![fml("1")], false)), a(Act::Put(2, 2, vec![cs("TRUE", CellDataType::Auto)], false)), Op::On("C", Act::Put(1, 1, vec![txt("q")], false))]),
        ("rows", vec![a(Act::Row(1, RS { hidden: Some(true), ..Default::default() })), a(Act::Row(2, RS { ht: Some(8.0), ..Default::default() })), a(Act::Row(7, RS { style: Some(1), ..Default::default() }))]),
        ("columns", vec![a(Act::Col(3, Some(ColS { width: Some(8.0), ..Default::default() }), false)), a(Act::Col(6, None, false)), a(Act::Col(1, Some(ColS { hidden: Some(true), ..Default::default() }), true))]),
        ("sheets", vec![Op::AddDrop(None), Op::Active("C"), Op::DelName("A"), Op::AddDrop(Some("N")), Op::V(false)]),
        ("views", vec![Op::Tabs(false), Op::H(false), Op::Hide("A"), Op::Rename("A", "Z")]),
        ("styles", vec![Op::Style(0), Op::Style(1), Op::Style(3), a(Act::Put(1, 2, vec![num("1").st(1)], false))]),
    ]
}
pub(super) fn judge(want: &Ran, got: &Ran, read: fn(&[u8]) -> Result<Package, String>, out: &mut Out) {
    if want.log != got.log {
        let i = (0..want.log.len().max(got.log.len())).find(|i| want.log.get(*i) != got.log.get(*i)).unwrap_or(0);
        out.bad(format!("call {i} answers {:?} for the usual form and {:?} for this one", want.log.get(i), got.log.get(i)));
        return;
    }
    match (&want.saved, &got.saved) {
        (None, None) => {}
        (Some(x), Some(y)) => {
            out.states.push(h64(y));
            match (read(x), read(y)) {
                (Ok(x), Ok(y)) => {
                    for m in pkg_diff(&x, &y, true) {
                        out.bad(format!("saved differently from the usual form: {m}"));
                    }
                }
                (x, y) => out.bad(x.err().or(y.err()).unwrap_or_default()),
            }
        }
        _ => out.bad("only one of the two documents was saved".to_string()),
    }
}
/// One save, then opened and saved again.
fn run(z: &[u8], dir: &str, e: usize, ops: &[Op]) -> Ran {
    let mut ops = ops.to_vec();
    ops.push(Op::Reopen);
    ops.push(Op::On(if e == 5 { "C" } else if e == 6 { "Z" } else { "A" }, Act::Put(30, 1, vec![num("1")], false)));
    solo(&Hist { name: "", kind: DocKind::Excel, src: Some(z.to_vec()), ops }, dir, 1, CLOCK, false).remove(0)
}
type Base = Arc<Vec<OnceLock<Ran>>>;
pub fn space(deep: bool) -> Space {
    let srcs = [("rich", books::rich().zip()), ("plain", books::plain().zip())];
    let mut spots = vec![];
    for (src, (name, z)) in srcs.iter().enumerate() {
        for (entry, e) in read_zip(z).expect("harness: source").iter().enumerate() {
            let n = &e.name;
            if n.ends_with(".rels") || !["worksheets/sheet1.xml", "xl/workbook.xml", "xl/styles.xml", "xl/sharedStrings.xml", "xl/calcChain.xml"].iter().any(|x| n.contains(x)) {
                continue;
            }
            let d = &e.data;
            let t = tags(d);
            let mut add = |at: (usize, usize), k: Kind, el: &str, an: &str| {
                let v = String::from_utf8_lossy(&d[at.0..at.1]).into_owned();
                for f in 0..FORMS {
                    if let Some(to) = form(k, &v, f) {
                        spots.push(Spot { src, entry, at, what: format!("{name}: {n} <{el}> {an} {v:?} spelled {to:?}"), to });
                    }
                }
            };
            for g in t.iter().filter(|g| g.open) {
                let el = local(&d[g.name.0..g.name.1]);
                for a in &g.attrs {
                    let an = local(&d[a.0..a.1]);
                    let full = String::from_utf8_lossy(&d[a.0..a.1]);
                    if full.trim().starts_with("xmlns") {
                        continue;
                    }
                    if let Some(k) = kind(n, el, an, &String::from_utf8_lossy(&d[a.2..a.3])) {
                        add((a.2, a.3), k, el, an);
                    }
                }
                // references to shared strings, truth values
                if el == "v" && !g.close {
                    let c = t.iter().filter(|c| c.open && !c.close && c.s < g.s && local(&d[c.name.0..c.name.1]) == "c").last();
                    let ty = c.and_then(|c| c.attrs.iter().find(|a| local(&d[a.0..a.1]) == "t").map(|a| d[a.2..a.3].to_vec()));
                    let k = match ty.as_deref() {
                        Some(b"s") => Kind::Int,
                        Some(b"b") => Kind::Bool,
                        _ => continue,
                    };
                    add((g.e, t[g.mate].s), k, el, "content");
                }
            }
        }
    }
    let edits = Arc::new(edits());
    let n = edits.len();
    let base: Base = Arc::new((0..srcs.len() * n).map(|_| OnceLock::new()).collect());
    let spots = Arc::new(spots);
    let (s2, e2) = (spots.clone(), edits.clone());
    let _ = deep;
    Space::new(
        "spellings",
        &format!("each number and truth value of two workbooks in each of {FORMS} other lexical forms, under each of {n} edits, against the usual form"),
        (spots.len() * n) as u64,
        move |i| {
            let mut d = Dig(i);
            let e = d.take(n);
            format!("{}; {}", s2[d.0 as usize].what, e2[e].0)
        },
        move |i, sc| {
            let mut out = Out::default();
            let mut d = Dig(i);
            let e = d.take(n);
            let s = &spots[d.0 as usize];
            let src = &srcs[s.src].1;
            let want = base[s.src * n + e].get_or_init(|| run(src, &sc.file("base"), e, &edits[e].1));
            let mut entries: Vec<(String, Vec<u8>)> = read_zip(src).expect("harness: source").into_iter().map(|x| (x.name, x.data)).collect();
            let data = &mut entries[s.entry].1;
            *data = [&data[..s.at.0], s.to.as_bytes(), &data[s.at.1..]].concat();
            let got = run(&write_zip(&entries), &sc.file("twin"), e, &edits[e].1);
            out.runs += 1;
            out.transitions += edits[e].1.len() as u64 + 3;
            judge(want, &got, normal_zip, &mut out);
            out
        },
    )
}

// ---------------------------------------------------------------- syntax

const SYNTAX: &[&str] = &[
    "attributes in reverse order", "attribute values with a decimal reference", "attribute values with a hexadecimal reference", "text with a reference", "text in CDATA", "text half in CDATA", "comments between the tags",
    "comments in the text", "instructions between the tags", "line ends between the tags", "spaces between the tags", "single quotes", "empty elements with two tags", "white space in the tags", "byte order mark", "no declaration",
    "another declaration", "behind comments and in front of them", "line ends of another system", "every form at once",
];
fn reference(v: &[u8], hex: bool) -> Vec<u8> {
    let s = String::from_utf8_lossy(v);
    match s.chars().next() {
        Some(c) if c != '&' => format!("{}{}", if hex { format!("&#x{:X};", c as u32) } else { format!("&#{};", c as u32) }, &s[c.len_utf8()..]).into_bytes(),
        _ => v.to_vec(),
    }
}
fn respell(d: &[u8], f: &str) -> Vec<u8> {
    if f == "every form at once" {
        let mut d = d.to_vec();
        for f in ["attributes in reverse order", "attribute values with a hexadecimal reference", "text half in CDATA", "comments between the tags", "line ends between the tags", "single quotes", "empty elements with two tags", "white space in the tags", "another declaration"] {
            d = respell(&d, f);
        }
        return d;
    }
    let t = tags(d);
    let Some(first) = t.first() else { return d.to_vec() };
    let head: Vec<u8> = d[..first.s].to_vec();
    let mut o: Vec<u8> = match f {
        "byte order mark" => [b"\xef\xbb\xbf".as_slice(), &head].concat(),
        "no declaration" => vec![],
        "another declaration" => b"<?xml version='1.0' encoding='utf-8' standalone='no' ?>\n".to_vec(),
        "behind comments and in front of them" => [&head, b"<!-- a --><?p q?>\n<!-- b -->".as_slice()].concat(),
        "line ends of another system" => String::from_utf8_lossy(&head).replace('\n', "\r\n").into_bytes(),
        _ => head,
    };
    for (i, g) in t.iter().enumerate() {
        if !g.open {
            o.extend_from_slice(&d[g.s..g.e]);
        } else {
            let selfc = g.close;
            o.push(b'<');
            o.extend_from_slice(&d[g.name.0..g.name.1]);
            let mut list: Vec<(Vec<u8>, Vec<u8>, u8)> = g.attrs.iter().map(|a| (d[a.0..a.1].trim_ascii().to_vec(), d[a.2..a.3].to_vec(), d[a.2 - 1])).collect();
            if f == "attributes in reverse order" {
                list.reverse();
            }
            for (n, v, mut q) in list {
                let v = match f {
                    "attribute values with a decimal reference" => reference(&v, false),
                    "attribute values with a hexadecimal reference" => reference(&v, true),
                    _ => v,
                };
                if f == "single quotes" && !v.contains(&b'\'') && !v.contains(&b'"') {
                    q = b'\'';
                }
                let (a, b) = match f {
                    "white space in the tags" => ("\n\t ", " = "),
                    "line ends of another system" => ("\r\n", "="),
                    _ => (" ", "="),
                };
                o.extend_from_slice(a.as_bytes());
                o.extend_from_slice(&n);
                o.extend_from_slice(b.as_bytes());
                o.push(q);
                o.extend_from_slice(&v);
                o.push(q);
            }
            if f == "white space in the tags" {
                o.extend_from_slice(b" \n");
            }
            if selfc && f == "empty elements with two tags" {
                o.extend_from_slice(b"></");
                o.extend_from_slice(&d[g.name.0..g.name.1]);
                o.push(b'>');
            } else {
                o.extend_from_slice(if selfc { b"/>" } else { b">" });
            }
        }
        let Some(next) = t.get(i + 1) else {
            o.extend_from_slice(&d[g.e..]);
            break;
        };
        let text = &d[g.e..next.s];
        let leaf = g.open && !g.close && g.mate == i + 1;
        if leaf {
            let plain = !text.is_empty() && !text.contains(&b'&') && !text.contains(&b'<');
            let half = {
                let s = String::from_utf8_lossy(text);
                s.char_indices().nth(s.chars().count() / 2).map_or(0, |c| c.0)
            };
            match f {
                "text with a reference" if plain => o.extend_from_slice(&reference(text, true)),
                "text in CDATA" if plain => o.extend_from_slice(&[b"<![CDATA[", text, b"]]>"].concat()),
                "text half in CDATA" if plain => o.extend_from_slice(&[&text[..half], b"<![CDATA[", &text[half..], b"]]>"].concat()),
                "comments in the text" if plain => o.extend_from_slice(&[&text[..half], b"<!-- c -->", &text[half..]].concat()),
                _ => o.extend_from_slice(text),
            }
        } else {
            o.extend_from_slice(text);
            match f {
                "comments between the tags" => o.extend_from_slice(b"<!-- <c r=\"A1\"/> -->"),
                "instructions between the tags" => o.extend_from_slice(b"<?p q=\"1\"?>"),
                "line ends between the tags" => o.extend_from_slice(b"\n\t"),
                "spaces between the tags" => o.push(b' '),
                "line ends of another system" => o.extend_from_slice(b"\r\n"),
                _ => {}
            }
        }
    }
    if f == "behind comments and in front of them" {
        o.extend_from_slice(b"<!-- z --><?p?>\n");
    }
    o
}

fn is_read(n: &str) -> bool {
    n.ends_with(".rels") || n == "[Content_Types].xml" || ["worksheets/sheet", "xl/workbook.xml", "xl/styles.xml", "xl/sharedStrings.xml", "xl/calcChain.xml", "docProps/core.xml"].iter().any(|x| n.contains(x))
}
pub fn syntax(_deep: bool) -> Space {
    let srcs = [("rich", books::rich().zip()), ("plain", books::plain().zip())];
    // one part, or all
    let mut spots: Vec<(usize, Option<usize>, String)> = vec![];
    for (i, (name, z)) in srcs.iter().enumerate() {
        for (k, e) in read_zip(z).expect("harness: source").iter().enumerate() {
            if is_read(&e.name) {
                spots.push((i, Some(k), format!("{name}: {}", e.name)));
            }
        }
        spots.push((i, None, format!("{name}: all parts")));
    }
    let edits = Arc::new(edits());
    let n = edits.len();
    let base: Base = Arc::new((0..srcs.len() * n).map(|_| OnceLock::new()).collect());
    let spots = Arc::new(spots);
    let (s2, e2) = (spots.clone(), edits.clone());
    Space::new(
        "syntax",
        &format!("each part that is read, and all, of two workbooks in {} other spellings of the same information, under each of {n} edits, against the usual spelling", SYNTAX.len()),
        (spots.len() * n * SYNTAX.len()) as u64,
        move |i| {
            let mut d = Dig(i);
            let (e, f) = (d.take(n), d.take(SYNTAX.len()));
            format!("{} with {}; {}", s2[d.0 as usize].2, SYNTAX[f], e2[e].0)
        },
        move |i, sc| {
            let mut out = Out::default();
            let mut d = Dig(i);
            let (e, f) = (d.take(n), d.take(SYNTAX.len()));
            let s = &spots[d.0 as usize];
            let src = &srcs[s.0].1;
            let want = base[s.0 * n + e].get_or_init(|| run(src, &sc.file("base"), e, &edits[e].1));
            let entries: Vec<(String, Vec<u8>)> = read_zip(src)
                .expect("harness: source")
                .into_iter()
                .enumerate()
                .map(|(k, x)| {
                    let d = if s.1 == Some(k) || s.1.is_none() && is_read(&x.name) { respell(&x.data, SYNTAX[f]) } else { x.data };
                    (x.name, d)
                })
                .collect();
            let got = run(&write_zip(&entries), &sc.file("twin"), e, &edits[e].1);
            out.runs += 1;
            out.transitions += edits[e].1.len() as u64 + 3;
            judge(want, &got, Package::read, &mut out);
            out
        },
    )
}

// ---------------------------------------------------------------- homonyms

const FOREIGN: &str = "urn:homonym";
const ALIKE: &[&str] = &["element in front", "element behind", "element with content in front", "attributes in front", "attributes behind"];
/// Elements and attributes of the other namespace taken away.
fn without(d: &[u8]) -> Vec<u8> {
    let t = tags(d);
    let declared = |g: &Tag| -> Option<String> {
        g.attrs.iter().find(|a| &d[a.2..a.3] == FOREIGN.as_bytes()).and_then(|a| String::from_utf8_lossy(&d[a.0..a.1]).trim().strip_prefix("xmlns:").map(|p| format!("{p}:")))
    };
    let Some(p) = t.iter().find_map(declared) else { return d.to_vec() };
    let p = p.as_bytes();
    let mut o = vec![];
    let mut at = 0;
    let mut i = 0;
    while i < t.len() {
        let g = &t[i];
        if g.open && d[g.name.0..].starts_with(p) {
            o.extend_from_slice(&d[at..g.s]);
            let end = if g.close { g } else { &t[g.mate] };
            at = end.e;
            i = if g.close { i } else { g.mate } + 1;
            continue;
        }
        for a in &g.attrs {
            let n = d[a.0..a.1].trim_ascii();
            if n.starts_with(p) || &d[a.2..a.3] == FOREIGN.as_bytes() {
                o.extend_from_slice(&d[at..a.0]);
                at = a.3 + 1;
            }
        }
        i += 1;
    }
    o.extend_from_slice(&d[at..]);
    o
}
fn without_zip(z: &[u8]) -> Result<Package, String> {
    let mut p = Package::read(z)?;
    for (n, d) in p.parts.iter_mut() {
        if is_read(n) {
            if let Err(e) = crate::xml::parse(d) {
                return Err(format!("part {n} is not well-formed: {e}"));
            }
            *d = without(d);
        }
    }
    Ok(p)
}
fn with_homonym(d: &[u8], g: &Tag, f: usize) -> Vec<u8> {
    let name = local(&d[g.name.0..g.name.1]).to_string();
    let plain: Vec<(String, String)> = g
        .attrs
        .iter()
        .map(|a| (String::from_utf8_lossy(&d[a.0..a.1]).trim().to_string(), String::from_utf8_lossy(&d[a.2..a.3]).into_owned()))
        .filter(|(n, _)| !n.starts_with("xmlns"))
        .map(|(n, v)| (n.rsplit(':').next().unwrap_or("").to_string(), v))
        .collect();
    let decl = format!(" xmlns:hq=\"{FOREIGN}\"");
    if f < 3 {
        let attrs: String = plain.iter().map(|(n, v)| format!(" {n}=\"{v}\"")).collect();
        // a name that ends alike is used once
        let mut seen = std::collections::BTreeSet::new();
        let attrs = if plain.iter().all(|x| seen.insert(&x.0)) { attrs } else { String::new() };
        let (x, end) = (if f == 2 { format!("<hq:{name}{decl}{attrs}>9</hq:{name}>") } else { format!("<hq:{name}{decl}{attrs}/>") }, if f == 1 { 1 } else { 0 });
        let t = tags(d);
        let me = t.iter().position(|x| x.s == g.s).expect("tag");
        let at = if end == 0 { g.s } else if g.close { g.e } else { t[t[me].mate].e };
        return [&d[..at], x.as_bytes(), &d[at..]].concat();
    }
    let mut seen = std::collections::BTreeSet::new();
    let twins: String = plain.iter().filter(|x| seen.insert(x.0.clone())).map(|(n, _)| format!(" hq:{n}=\"7\"")).collect();
    let at = if f == 3 { g.name.1 } else { g.attrs.last().map_or(g.name.1, |a| a.3 + 1) };
    [&d[..at], decl.as_bytes(), twins.as_bytes(), &d[at..]].concat()
}
pub fn homonyms(deep: bool) -> Space {
    let srcs = [("rich", books::rich().zip()), ("plain", books::plain().zip())];
    let mut spots: Vec<(usize, usize, usize, usize, String, bool)> = vec![]; // source, entry, tag, form, text, style request allowed
    for (i, (name, z)) in srcs.iter().enumerate() {
        for (k, e) in read_zip(z).expect("harness: source").iter().enumerate() {
            if !is_read(&e.name) || e.name.ends_with(".rels") || e.name.starts_with('[') {
                continue;
            }
            let d = &e.data;
            let t = tags(d);
            let mut stack: Vec<&str> = vec![];
            let mut count = std::collections::BTreeMap::new();
            for (j, g) in t.iter().enumerate() {
                if !g.open {
                    stack.pop();
                    continue;
                }
                let el = local(&d[g.name.0..g.name.1]);
                let parent = stack.last().copied().unwrap_or("");
                let n = count.entry((parent.to_string(), el)).or_insert(0);
                *n += 1;
                let styles = e.name.contains("styles");
                if *n <= if deep { 9 } else { 3 } {
                    for f in 0..ALIKE.len() {
                        // the rows of a sheet, the content of a text and the root stand alone
                        let stands_alone = parent.is_empty() || parent == "sheetData" || e.name.contains("sharedStrings") && stack.len() > 1;
                        if f < 3 && stands_alone || f >= 3 && (g.attrs.is_empty() || e.name.contains("sharedStrings")) {
                            continue;
                        }
                        spots.push((i, k, j, f, format!("{name}: {}, {parent}/{el} number {n}: {}", e.name, ALIKE[f]), !(styles && stack.len() > 1)));
                    }
                }
                if !g.close {
                    stack.push(el);
                }
            }
        }
    }
    let edits = Arc::new(edits());
    let n = edits.len();
    let base: Base = Arc::new((0..srcs.len() * n).map(|_| OnceLock::new()).collect());
    let spots = Arc::new(spots);
    let (s2, e2) = (spots.clone(), edits.clone());
    Space::new(
        "homonyms",
        &format!("beside each element that is read, and each of its attributes, one of the same name in another namespace, under each of {n} edits, against the workbook without it"),
        (spots.len() * n) as u64,
        move |i| {
            let mut d = Dig(i);
            let e = d.take(n);
            format!("{}; {}", s2[d.0 as usize].4, e2[e].0)
        },
        move |i, sc| {
            let mut out = Out::default();
            let mut d = Dig(i);
            let e = d.take(n);
            let s = &spots[d.0 as usize];
            if [1, 3, 7].contains(&e) && !s.5 {
                // a record with further content is another record
                return out;
            }
            let src = &srcs[s.0].1;
            let want = base[s.0 * n + e].get_or_init(|| run(src, &sc.file("base"), e, &edits[e].1));
            let mut entries: Vec<(String, Vec<u8>)> = read_zip(src).expect("harness: source").into_iter().map(|x| (x.name, x.data)).collect();
            let data = &mut entries[s.1].1;
            *data = with_homonym(data, &tags(data)[s.2], s.3);
            crate::xml::parse(data).expect("harness: homonym");
            let got = run(&write_zip(&entries), &sc.file("twin"), e, &edits[e].1);
            out.runs += 1;
            out.transitions += edits[e].1.len() as u64 + 3;
            judge(want, &got, without_zip, &mut out);
            if let (0, Some(z)) = (e, &got.saved) {
                let kept = read_zip(z).is_ok_and(|v| v.iter().any(|x| x.data.windows(FOREIGN.len()).any(|w| w == FOREIGN.as_bytes())));
                if !kept {
                    out.bad("what is of another namespace is gone".to_string());
                }
            }
            out
        },
    )
}
