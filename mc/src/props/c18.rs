//! Malformed input yields an error, never a panic or silent damage.
use super::common::*;
use crate::books;
use crate::env;
use crate::zipio;
use std::collections::BTreeMap;
use std::sync::Arc;

/// What is done with the file.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ses {
    /// open, save
    Plain,
    /// open, get and release every sheet, save
    Touch,
    /// open, change every sheet and the workbook, save
    Edit,
}
const SES: &[Ses] = &[Ses::Plain, Ses::Touch, Ses::Edit];

/// Runs the session. Every call may fail; a panic ends it. The names of the sheets that were changed.
fn session(kind: DocKind, path: &str, s: Ses, sc: &Scratch, out: &mut Out) -> Option<(Vec<u8>, Vec<String>)> {
    if kind != DocKind::Excel {
        let o = sc.file("o");
        let r = roundtrip(kind, Some(path), &o);
        out.transitions += 2;
        let b = std::fs::read(&o).ok();
        let _ = std::fs::remove_file(&o);
        return match r {
            Res::Ok(()) => Some((b.unwrap_or_default(), vec![])),
            Res::Err(_) => None,
            Res::Panic(p) => {
                out.bad(p);
                None
            }
        };
    }
    let mut x = match open(Some(path)) {
        Res::Ok(x) => x,
        Res::Err(_) => return None,
        Res::Panic(p) => {
            out.bad(format!("open: {p}"));
            return None;
        }
    };
    out.transitions += 1;
    let mut changed = vec![];
    macro_rules! go {
        ($what:expr, $r:expr) => {{
            out.transitions += 1;
            let r = $r;
            if let Some(p) = r.panic() {
                out.bad(format!("{}: {p}", $what));
                return None;
            }
            r
        }};
    }
    if s != Ses::Plain {
        let names = match go!("list", x.list()) {
            Res::Ok(n) => n,
            _ => vec![],
        };
        for n in &names {
            let w = go!("get", x.get(n));
            if let Res::Ok(mut w) = w {
                if s == Ses::Edit {
                    let r = go!("write", ws_call(&mut w, |w| w.set_row_value_index_mut(5, 2, vec![cell("edit", CellDataType::ShareString), cell("6", CellDataType::Number)])));
                    if r.is_ok() {
                        changed.push(n.clone());
                    }
                    go!("column", ws_call(&mut w, |w| w.set_column_index_properties_mut(&3, { let mut c = ColumnProperties::default(); c.width = Some(7.0); Some(c) })));
                }
                out.transitions += 1;
                if let Some(p) = ws_drop(w) {
                    out.bad(format!("release: {p}"));
                    std::mem::forget(x.e.take());
                    return None;
                }
            }
        }
        if s == Ses::Edit {
            go!("style", x.style({ let mut s = StyleSetting::default(); s.is_bold = true; s }));
            go!("format", x.style({ let mut s = StyleSetting::default(); s.number_format = NumberFormatValues::Custom; s.custom_number_format = Some("0.0000\" edit\"".into()); s }));
            if let Res::Ok(w) = go!("add", x.add(Some("Added"))) {
                ws_drop(w);
            }
            go!("tabs", x.hide_tabs(true));
            if let Some(n) = names.first() {
                go!("hide", x.hide(n));
                go!("active", x.active(n));
            }
        }
    }
    match go!("save", x.save_bytes(sc)) {
        Res::Ok(b) => Some((b, changed)),
        Res::Err(e) => {
            if e.starts_with("HARNESS-VISIBLE") {
                out.bad(e);
            }
            None
        }
        _ => None,
    }
}
/// The parts as the central directory names them; None where the data cannot be had or is not what
/// the checksum says.
enum Data {
    Is(Vec<u8>),
    /// not what the checksum says
    Broken,
    Unknown,
}
fn lenient(b: &[u8]) -> Option<Vec<(String, Data)>> {
    use std::io::Read;
    let eocd = (0..=b.len().checked_sub(22)?).rev().find(|i| b[*i..].starts_with(&[0x50, 0x4b, 5, 6]))?;
    let u16a = |p: usize| b.get(p..p + 2).map(|s| u16::from_le_bytes([s[0], s[1]]) as usize);
    let u32a = |p: usize| b.get(p..p + 4).map(|s| u32::from_le_bytes([s[0], s[1], s[2], s[3]]) as usize);
    let n = u16a(eocd + 10)?;
    let mut p = u32a(eocd + 16)?;
    let mut v = vec![];
    for _ in 0..n {
        if b.get(p..p + 4)? != [0x50, 0x4b, 1, 2] {
            return None;
        }
        let (flags, method, crc, cs, us, nl, xl, cl, off) = (u16a(p + 8)?, u16a(p + 10)?, u32a(p + 16)?, u32a(p + 20)?, u32a(p + 24)?, u16a(p + 28)?, u16a(p + 30)?, u16a(p + 32)?, u32a(p + 42)?);
        let name = String::from_utf8(b.get(p + 46..p + 46 + nl)?.to_vec()).ok()?;
        p += 46 + nl + xl + cl;
        let data = (|| {
            if flags & 1 != 0 {
                return None;
            }
            let ds = off + 30 + u16a(off + 26)? + u16a(off + 28)?;
            let raw = b.get(ds..ds.checked_add(cs)?.min(b.len()))?;
            let d = match method {
                0 => raw.to_vec(),
                8 => {
                    let mut o = vec![];
                    flate2::read::DeflateDecoder::new(raw).take(1 << 24).read_to_end(&mut o).ok()?;
                    o
                }
                _ => return None,
            };
            (zipio::crc32(&d) == crc as u32).then_some(d)
        })();
        // other methods and encryption: not known to this reader
        let data = if data.is_none() && (flags & 1 != 0 || method != 0 && method != 8) { Data::Unknown } else { data.map(Data::Is).unwrap_or(Data::Broken) };
        v.push((name, data));
    }
    Some(v)
}
/// The text in a form the strict reader takes, if there is one.
fn clean(d: &[u8]) -> Vec<u8> {
    if xml::parse(d).is_ok() {
        return d.to_vec();
    }
    xml::strip(d).filter(|v| xml::parse(v).is_ok()).unwrap_or_else(|| d.to_vec())
}
fn norm_counts(e: &mut Elem) {
    let drop: Vec<_> = e.attrs.keys().filter(|k| k.ns.is_empty() && (k.local == "count" || k.local == "uniqueCount")).cloned().collect();
    for k in drop {
        e.attrs.remove(&k);
    }
    for k in e.kids.iter_mut() {
        if let Node::E(c) = k {
            norm_counts(c);
        }
    }
}
struct Case<'a> {
    kind: DocKind,
    bytes: &'a [u8],
    ses: Ses,
}
/// `parts` of the (mutated) file: what the saved file must still have.
fn judge(c: &Case, sc: &Scratch, out: &mut Out) {
    env::set_clock(1_600_000_000);
    let path = sc.put("src", c.bytes);
    let r = session(c.kind, &path, c.ses, sc, out);
    match std::fs::read(&path) {
        Ok(b) if b == c.bytes => {}
        _ => out.bad("the source file is not what it was"),
    }
    out.outcome = h64(&(r.as_ref().map(|b| (b.0.len(), b.1.len())), out.transitions));
    out.states.push(out.outcome);
    out.nontrivial = true;
    let Some((saved, changed)) = r else { return };
    let got = match Package::read(&saved) {
        Ok(p) => p,
        Err(e) => {
            // a broken list of content types or one that is not needed is passed on at best
            out.bad(format!("the saved file is not readable: {e}"));
            return;
        }
    };
    let Some(src) = lenient(c.bytes) else { return };
    // the package as it was meant, if that can be told
    if src.iter().any(|(_, d)| matches!(d, Data::Unknown)) {
        return;
    }
    for (n, d) in &src {
        if !n.ends_with('/') && matches!(d, Data::Broken) {
            out.bad(format!("saved although {n} cannot be read from the source"));
            return;
        }
    }
    let src: Vec<(String, Vec<u8>)> = src.into_iter().map(|(n, d)| (n, if let Data::Is(d) = d { d } else { vec![] })).collect();
    let pkg = Package::read(&zipio::write_zip(&src.iter().map(|(n, d)| (n.clone(), if n == "[Content_Types].xml" || n.ends_with(".rels") { clean(d) } else { d.clone() })).collect::<Vec<_>>()));
    // parts that relationships do not lead to are looked for at their usual names
    let target = |ty: &str, usual: &str| pkg.as_ref().ok().and_then(|p| p.rel_target("", ty)).filter(|t| src.iter().any(|(n, _)| n == t)).unwrap_or(usual.to_string());
    let wb = target(opc::R_DOC, "xl/workbook.xml");
    let core = target(opc::R_CORE, "docProps/core.xml");
    let mut sheets: Vec<(String, String)> = pkg.as_ref().ok().map(|p| sheet_parts(p, &wb)).unwrap_or_default();
    if c.kind == DocKind::Excel {
        for (n, d) in &src {
            if !sheets.iter().any(|(_, p)| p == n) && xml::parse_lenient(d).is_ok_and(|e| e.name.local == "worksheet") {
                sheets.push((String::new(), n.clone()));
            }
        }
    }
    for (n, d) in &src {
        if n.ends_with('/') {
            continue;
        }
        if n == "[Content_Types].xml" {
            if xml::parse_lenient(d).is_err() {
                out.bad("saved although the content types are malformed");
            }
            continue;
        }
        // which of two entries of the same name counts is up to the reader
        if src.iter().any(|(m, e)| m == n && e != d) {
            continue;
        }
        let Some(g) = got.parts.get(n) else {
            // a list without an entry says nothing
            if xml::parse_lenient(d).is_ok_and(|e| e.elems().next().is_none()) {
                continue;
            }
            out.bad(format!("part {n} is gone"));
            continue;
        };
        if g == d {
            continue;
        }
        if let Ok(p) = &pkg {
            if !p.is_xml_part(n) {
                out.bad(format!("bytes of {n} differ"));
                continue;
            }
        }
        let x = match xml::parse_lenient(d) {
            Ok(x) => x,
            Err(e) if e.contains("nested too deeply") => continue,
            Err(e) => {
                out.bad(format!("{n} is malformed ({e}) and was rewritten"));
                continue;
            }
        };
        let y = match if xml::parse(d).is_ok() { xml::parse(g) } else { xml::parse_lenient(g) } {
            Ok(y) => y,
            Err(e) => {
                out.bad(format!("{n} was well-formed and is not: {e}"));
                continue;
            }
        };
        if opc::rels_source(n).is_some() {
            let of = opc::rels_source(n).unwrap_or_default();
            for r in x.elems().filter(|r| r.name.local == "Relationship") {
                // nothing there to lead to
                let to = opc::resolve(&of, r.at("Target").unwrap_or(""));
                if r.at("TargetMode") != Some("External") && !src.iter().any(|(m, d)| *m == to && !(got.parts.get(m).is_none() && xml::parse_lenient(d).is_ok_and(|e| e.elems().next().is_none()))) {
                    continue;
                }
                if !y.elems().any(|q| q.at("Id") == r.at("Id") && q.at("Type") == r.at("Type") && q.at("TargetMode") == r.at("TargetMode") && q.at("Target").is_some()) {
                    out.bad(format!("{n}: relationship {} is gone or changed", r.canon()));
                }
            }
            continue;
        }
        let (mut x, mut y) = (x, y);
        norm_counts(&mut x);
        norm_counts(&mut y);
        if *n == core {
            blank(&mut x, "modified");
            blank(&mut y, "modified");
            x.kids.retain(|k| !matches!(k, Node::E(e) if e.name.local == "modified"));
            y.kids.retain(|k| !matches!(k, Node::E(e) if e.name.local == "modified"));
        }
        // a value that is missing or spread over other elements is completed
        for e in [&mut x, &mut y] {
            if *n == core {
                e.kids.retain(|k| !matches!(k, Node::E(e) if e.name.local == "created" && (e.elems().next().is_some() || e.text().trim().is_empty() || e.text().starts_with("2020-09-13T12:26:40Z"))));
            }
        }
        let own = sheets.iter().any(|(_, p)| p == n);
        if own || *n == wb {
            // what the library knows is compared fact by fact, the rest as it is
            let (fx, fy) = (facts(&mut x, own, c.ses), facts(&mut y, own, c.ses));
            if let Some(f) = fx.iter().find(|f| !fy.contains(*f)) {
                out.bad(format!("{n}: {f} is gone or changed"));
            }
            for e in x.elems() {
                if !y.elems().any(|f| diff(e, f).is_none()) {
                    out.bad(format!("{n}: {} is gone or changed", e.name.local));
                }
            }
            if x.name != y.name || x.attrs != y.attrs {
                out.bad(format!("{n}: the root element changed"));
            }
        } else if c.ses == Ses::Edit {
            if let Some(d) = appended(&x, &y, 0) {
                out.bad(format!("{n}: {d}"));
            }
        } else if let Some(d) = diff(&x, &y) {
            out.bad(format!("{n}: {d}"));
        }
    }
}
const KNOWN: &[&str] = &["sheetViews", "sheetView", "pane", "selection", "cols", "col", "sheetData", "row", "c", "v", "f", "is", "t", "r", "rPr", "rPh", "phoneticPr", "sheets", "sheet", "bookViews", "workbookView"];
/// Takes the parts out that the library has a model of and returns what they say: attribute values,
/// texts and inner markup of the elements of the schema. Where their order or nesting is not that
/// of the schema, what they say still has to be there.
fn facts(e: &mut Elem, sheet: bool, ses: Ses) -> std::collections::BTreeSet<String> {
    if !sheet {
        // positions of sheets that have the same name say nothing
        let names: Vec<_> = e.kid("sheets").map(|s| s.elems().map(|s| s.at("name").unwrap_or("").to_string()).collect()).unwrap_or_default();
        if (1..names.len()).any(|i| names[..i].contains(&names[i])) {
            e.kids.retain(|k| !matches!(k, Node::E(c) if ["definedNames", "bookViews"].contains(&c.name.local.as_str())));
        }
    }
    let tops: &[&str] = if sheet { &["sheetViews", "cols", "sheetData", "dimension"] } else { &["sheets", "bookViews"] };
    let mut v = std::collections::BTreeSet::new();
    let mut rest = vec![];
    for k in std::mem::take(&mut e.kids) {
        match k {
            Node::E(c) if tops.contains(&c.name.local.as_str()) => {
                let of = c.name.local.clone();
                let skip = of == "dimension" || of == "cols" && overlap(&c) || ses == Ses::Edit && (of == "cols" || of == "bookViews");
                if !skip {
                    fact(&c, &of, ses, &mut v);
                }
            }
            Node::E(c) => rest.push(Node::E(c)),
            _ => {}
        }
    }
    e.kids = rest;
    v
}
/// Which of two entries for the same column counts is up to the reader.
fn overlap(cols: &Elem) -> bool {
    let r: Vec<(u64, u64)> = cols.elems().map(|c| { let n = |a| c.at(a).and_then(|v: &str| v.trim().parse().ok()); let min = n("min").unwrap_or(0); (min, n("max").unwrap_or(min)) }).collect();
    (0..r.len()).any(|i| r[i].0 > r[i].1 || r[i].0 == 0 || (0..i).any(|j| r[j].0 <= r[i].1 && r[i].0 <= r[j].1))
}
fn fact(e: &Elem, path: &str, ses: Ses, v: &mut std::collections::BTreeSet<String>) {
    if ses == Ses::Edit && e.name.local == "row" && e.at("r").map(|r| r.trim()).is_none_or(|r| r == "5" || r.parse::<u32>().is_err()) {
        return;
    }
    for (k, val) in &e.attrs {
        // the range of a shared column entry, which is split and joined; the sheet that is shown or hidden
        if k.ns.starts_with('?') || k.local.starts_with('?') || e.name.local == "col" && ["min", "max"].contains(&k.local.as_str()) || ses == Ses::Edit && ["state", "tabSelected"].contains(&k.local.as_str()) {
            continue;
        }
        v.insert(format!("{path} {}={:?}", k.local, val.trim().to_ascii_lowercase()));
    }
    let mut inner = false;
    for c in e.elems() {
        inner = true;
        if KNOWN.contains(&c.name.local.as_str()) {
            fact(c, &format!("{path}/{}", c.name.local), ses, v);
        }
    }
    if !inner && !e.text().is_empty() && !["sheet", "col", "row", "selection", "pane", "c", "sheets", "sheetData", "cols", "bookViews", "workbookView", "sheetViews", "sheetView"].contains(&e.name.local.as_str()) {
        v.insert(format!("{path} {:?}", e.text()));
    }
}
/// Opens and saves while reads of the source go wrong.
fn read_fault(kind: DocKind, b: &[u8], at: usize, act: &env::Act, sc: &Scratch, out: &mut Out) {
    env::set_clock(1_600_000_000);
    let path = sc.put("src", b);
    let run = |plan: Option<(usize, env::Act)>, out: &mut Out| {
        env::begin(5);
        env::set_clock(1_600_000_000);
        let o = sc.file("o");
        let mut fs = env::Fs { root: path.clone(), read_plan: plan, ..Default::default() };
        env::fs_on(&mut fs);
        let r = match kind {
            DocKind::Excel => match open(Some(&path)) {
                Res::Ok(mut x) => {
                    let names = match x.list() {
                        Res::Ok(n) => n,
                        _ => vec![],
                    };
                    for n in &names {
                        match x.get(n) {
                            Res::Ok(w) => drop(ws_drop(w)),
                            r => out.bad(format!("opened, but then {n}: {}", r.show())),
                        }
                    }
                    x.save(&o)
                }
                Res::Err(e) => Res::Err(e),
                Res::Panic(p) => Res::Panic(p),
            },
            k => roundtrip(k, Some(&path), &o),
        };
        env::fs_off();
        out.transitions += 2;
        let saved = std::fs::read(&o).ok();
        let _ = std::fs::remove_file(&o);
        (r, saved, fs.fired)
    };
    let (r0, s0, _) = run(None, out);
    let (r1, s1, fired) = run(Some((at, act.clone())), out);
    if let Some(p) = r0.panic().or(r1.panic()) {
        out.bad(p);
    }
    if std::fs::read(&path).ok().as_deref() != Some(b) {
        out.bad("the source file is not what it was");
    }
    out.outcome = h64(&(at, fired, r1.is_ok()));
    out.states.push(out.outcome);
    if !r0.is_ok() {
        out.bad(format!("without a fault: {}", r0.show()));
        return;
    }
    if !r1.is_ok() {
        if !fired || *act != env::Act::Fail(env::EIO) {
            out.bad(format!("reads that come in pieces are no fault: {}", r1.show()));
        }
        return;
    }
    match (s0.as_deref().map(Package::read), s1.as_deref().map(Package::read)) {
        (Some(Ok(a)), Some(Ok(c))) => {
            for n in a.parts.keys().chain(c.parts.keys()) {
                match (a.parts.get(n), c.parts.get(n)) {
                    (Some(x), Some(y)) if x == y => {}
                    (Some(x), Some(y)) if matches!((xml::parse(x), xml::parse(y)), (Ok(x), Ok(y)) if diff(&x, &y).is_none()) => {}
                    _ => out.bad(format!("saved in spite of the fault, but {n} is not what it would be")),
                }
            }
        }
        _ => out.bad("the saved file cannot be read"),
    }
}
/// b has everything of a, in order, with more at the ends of the lists.
fn appended(a: &Elem, b: &Elem, depth: usize) -> Option<String> {
    if a.name != b.name || a.attrs != b.attrs {
        return Some(format!("element {} differs", a.name.local));
    }
    let (mut ae, mut be): (Vec<&Elem>, Vec<&Elem>) = (a.elems().collect(), b.elems().collect());
    if depth == 0 {
        // what stands against the order of the schema may be put in order
        ae.sort_by(|x, y| x.name.cmp(&y.name));
        be.sort_by(|x, y| x.name.cmp(&y.name));
    }
    let mut j = 0;
    for x in ae {
        loop {
            match be.get(j) {
                None => return Some(format!("{} is gone or changed", x.name.local)),
                Some(y) => {
                    j += 1;
                    let same = if depth == 0 { appended(x, y, 1).is_none() } else { diff(x, y).is_none() };
                    if same {
                        break;
                    }
                    // elements of another name may be put in between
                    if x.name == y.name && depth == 0 {
                        return Some(format!("{} changed", x.name.local));
                    }
                }
            }
        }
    }
    None
}
fn sheet_parts(p: &Package, wb: &str) -> Vec<(String, String)> {
    let Some(Ok(r)) = p.parts.get(wb).map(|b| xml::parse(b)) else { return vec![] };
    let rels = p.rels(wb).unwrap_or_default();
    let mut v = vec![];
    if let Some(s) = r.kid("sheets") {
        for e in s.elems() {
            let id = e.attrs.iter().find(|(k, _)| k.local == "id").map(|(_, v)| v.clone()).unwrap_or_default();
            if let Some(q) = rels.iter().find(|q| q.id == id) {
                v.push((e.at("name").unwrap_or("").to_string(), q.part.clone()));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- sources

pub type Entries = Vec<(String, Vec<u8>)>;
fn excel_sources() -> Vec<(&'static str, Entries)> {
    let dec = |b: &[u8]| zipio::read_zip(b).expect("source").into_iter().map(|e| (e.name, e.data)).collect::<Entries>();
    // in the library's own form, so that what it does not change can be compared
    let own = |b: &[u8]| {
        let b = b.to_vec();
        let dir = crate::engine::scratch_base().join("own");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.to_string_lossy().into_owned();
        let r = std::thread::spawn(move || {
            env::begin(3);
            env::set_clock(1_500_000_000);
            let f = format!("{path}/a.xlsx");
            let g = format!("{path}/b.xlsx");
            std::fs::write(&f, &b).expect("scratch");
            let mut x = match open(Some(&f)) {
                Res::Ok(x) => x,
                r => return None,
            };
            for n in match x.list() {
                Res::Ok(v) => v,
                _ => vec![],
            } {
                if let Res::Ok(w) = x.get(&n) {
                    ws_drop(w);
                }
            }
            match x.save(&g) {
                Res::Ok(()) => std::fs::read(&g).ok(),
                _ => None,
            }
        })
        .join()
        .ok()
        .flatten();
        let _ = std::fs::remove_dir_all(&dir);
        r
    };
    let mut v = vec![];
    for (n, b) in [("plain", books::plain().zip()), ("rich", books::rich().zip())] {
        match own(&b) {
            Some(b) => v.push((n, dec(&b))),
            None => v.push((n, dec(&b))),
        }
    }
    v
}
fn doc_sources() -> Vec<(&'static str, DocKind, Entries)> {
    let dec = |b: &[u8]| zipio::read_zip(b).expect("source").into_iter().map(|e| (e.name, e.data)).collect::<Entries>();
    vec![("text document", DocKind::Word, dec(&fx::doc_pkg(true, Some(fx::CORE)).zip())), ("presentation", DocKind::Ppt, dec(&fx::doc_pkg(false, Some(fx::CORE)).zip()))]
}
fn deflated(e: &Entries) -> Vec<u8> {
    use std::io::Write;
    let mut z = zip_writer::Z::default();
    for (n, d) in e {
        let mut c = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::default());
        c.write_all(d).expect("deflate");
        z.add(n, d, &c.finish().expect("deflate"));
    }
    z.finish()
}
mod zip_writer {
    #[derive(Default)]
    pub struct Z {
        out: Vec<u8>,
        cd: Vec<u8>,
        n: u16,
    }
    impl Z {
        pub fn add(&mut self, name: &str, data: &[u8], comp: &[u8]) {
            let off = self.out.len() as u32;
            let mut c = vec![];
            c.extend_from_slice(&20u16.to_le_bytes());
            c.extend_from_slice(&0u16.to_le_bytes());
            c.extend_from_slice(&8u16.to_le_bytes());
            c.extend_from_slice(&[0, 0, 0x21, 0]);
            c.extend_from_slice(&crate::zipio::crc32(data).to_le_bytes());
            c.extend_from_slice(&(comp.len() as u32).to_le_bytes());
            c.extend_from_slice(&(data.len() as u32).to_le_bytes());
            c.extend_from_slice(&(name.len() as u16).to_le_bytes());
            c.extend_from_slice(&0u16.to_le_bytes());
            self.out.extend_from_slice(&[0x50, 0x4b, 3, 4]);
            self.out.extend_from_slice(&c);
            self.out.extend_from_slice(name.as_bytes());
            self.out.extend_from_slice(comp);
            self.cd.extend_from_slice(&[0x50, 0x4b, 1, 2, 20, 0]);
            self.cd.extend_from_slice(&c);
            self.cd.extend_from_slice(&[0; 10]);
            self.cd.extend_from_slice(&off.to_le_bytes());
            self.cd.extend_from_slice(name.as_bytes());
            self.n += 1;
        }
        pub fn finish(mut self) -> Vec<u8> {
            let (o, l) = (self.out.len() as u32, self.cd.len() as u32);
            self.out.append(&mut self.cd);
            self.out.extend_from_slice(&[0x50, 0x4b, 5, 6, 0, 0, 0, 0]);
            self.out.extend_from_slice(&self.n.to_le_bytes());
            self.out.extend_from_slice(&self.n.to_le_bytes());
            self.out.extend_from_slice(&l.to_le_bytes());
            self.out.extend_from_slice(&o.to_le_bytes());
            self.out.extend_from_slice(&[0, 0]);
            self.out
        }
    }
}

// ---------------------------------------------------------------- markup mutations

/// A tag of an XML text: byte range, name range, kind, and for start tags the index of its end tag.
#[derive(Clone, Debug)]
pub(super) struct Tag {
    pub(super) s: usize,
    pub(super) e: usize,
    pub(super) name: (usize, usize),
    pub(super) open: bool,
    pub(super) close: bool,
    pub(super) mate: usize,
    pub(super) attrs: Vec<(usize, usize, usize, usize)>, // attribute start (with the space), name end, value start, value end
}
pub(super) fn tags(t: &[u8]) -> Vec<Tag> {
    let mut v: Vec<Tag> = vec![];
    let mut stack: Vec<usize> = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] != b'<' {
            i += 1;
            continue;
        }
        if t[i + 1] == b'?' || t[i + 1] == b'!' {
            let end: &[u8] = if t[i + 1] == b'?' { b"?>" } else if t[i..].starts_with(b"<!--") { b"-->" } else { b">" };
            i += t[i..].windows(end.len()).position(|w| w == end).expect("source markup") + end.len();
            continue;
        }
        let s = i;
        let close = t[i + 1] == b'/';
        let n0 = i + 1 + close as usize;
        let mut j = n0;
        while !b" \t\n\r/>".contains(&t[j]) {
            j += 1;
        }
        let n1 = j;
        let mut attrs = vec![];
        loop {
            let a0 = j;
            while b" \t\n\r".contains(&t[j]) {
                j += 1;
            }
            if t[j] == b'>' || t[j] == b'/' {
                break;
            }
            let mut k = j;
            while !b"= \t\n".contains(&t[k]) {
                k += 1;
            }
            let an = k;
            while t[k] != b'"' && t[k] != b'\'' {
                k += 1;
            }
            let q = t[k];
            let v0 = k + 1;
            let mut v1 = v0;
            while t[v1] != q {
                v1 += 1;
            }
            attrs.push((a0, an, v0, v1));
            j = v1 + 1;
        }
        let selfc = t[j] == b'/';
        let e = j + 1 + selfc as usize;
        let me = v.len();
        v.push(Tag { s, e, name: (n0, n1), open: !close, close: close || selfc, mate: me, attrs });
        if close {
            let o = stack.pop().expect("source markup");
            v[o].mate = me;
        } else if !selfc {
            stack.push(me);
        }
        i = e;
    }
    v
}
const TAG_OPS: &[&str] = &[
    "without it", "without its start tag", "without its end tag", "twice", "renamed", "with an undeclared prefix", "in another namespace", "emptied", "with text in it", "with an unknown element in it",
    "with a stray text before it", "with an unfinished comment before it", "with an unknown reference before it", "with a declaration before it", "moved to the end", "with the rest missing",
];
const ATTR_OPS: &[&str] = &["removed", "empty", "-1", "0", "x", "4294967296", "99999999999999999999", "1.5e3", " 1 ", "rId99", "A0", "../../../../x", "TRUE", "twice", "unquoted", "renamed", "undeclared prefix", "1048577", "1", "4294967295", "18446744073709551615"];
fn mutate_tag(t: &[u8], tg: &[Tag], k: usize, op: usize) -> Vec<u8> {
    let g = &tg[k];
    let m = &tg[g.mate];
    let mut o = vec![];
    let name = &t[g.name.0..g.name.1];
    let (a, b) = (&t[..g.s], &t[m.e..]);
    let whole = &t[g.s..m.e];
    let cat = |v: &[&[u8]]| v.concat();
    let end = tg.iter().rposition(|x| x.close && x.mate == 0 || std::ptr::eq(x, &tg[tg.len() - 1])).unwrap_or(tg.len() - 1);
    let renamed = |new: &[u8]| {
        if g.mate == k {
            cat(&[a, b"<", new, &t[g.name.1..]])
        } else {
            cat(&[a, b"<", new, &t[g.name.1..m.name.0], new, &t[m.name.1..]])
        }
    };
    match op {
        0 => o = cat(&[a, b]),
        1 => o = cat(&[a, &t[g.e..]]),
        2 => o = if g.mate == k { cat(&[&t[..g.e - 2], b">", &t[g.e..]]) } else { cat(&[&t[..m.s], b]) },
        3 => o = cat(&[a, whole, whole, b]),
        4 => o = renamed(b"zz"),
        5 => o = renamed(&[b"q9:", name].concat()),
        6 => o = cat(&[&t[..g.name.1], b" xmlns=\"urn:other\"", &t[g.name.1..]]),
        7 => o = if g.mate == k { cat(&[a, b"<", name, b"></", name, b">", b]) } else { cat(&[&t[..g.e], &t[m.s..]]) },
        8 | 9 => {
            let x: &[u8] = if op == 8 { b"x &amp; y" } else { b"<zz a=\"1\">q</zz>" };
            o = if g.mate == k { cat(&[&t[..g.e - 2], b">", x, b"</", name, b">", b]) } else { cat(&[&t[..g.e], x, &t[g.e..]]) }
        }
        10 => o = cat(&[a, b"stray", &t[g.s..]]),
        11 => o = cat(&[a, b"<!-- ", &t[g.s..]]),
        12 => o = cat(&[a, b"&unknown;", &t[g.s..]]),
        13 => o = cat(&[a, b"<!DOCTYPE x [<!ENTITY e \"v\">]>", &t[g.s..]]),
        14 => {
            let last = &tg[end];
            o = if m.e <= last.s { cat(&[a, &t[m.e..last.s], whole, &t[last.s..]]) } else { t.to_vec() }
        }
        _ => o = t[..g.e].to_vec(),
    }
    o
}
fn mutate_attr(t: &[u8], at: &(usize, usize, usize, usize), op: usize) -> Vec<u8> {
    let (a0, an, v0, v1) = *at;
    let cat = |v: &[&[u8]]| v.concat();
    match ATTR_OPS[op] {
        "removed" => cat(&[&t[..a0], &t[v1 + 1..]]),
        "empty" => cat(&[&t[..v0], &t[v1..]]),
        "twice" => cat(&[&t[..v1 + 1], &t[a0..]]),
        "unquoted" => cat(&[&t[..v0 - 1], &t[v0..v1], &t[v1 + 1..]]),
        "renamed" => cat(&[&t[..a0], b" zz", &t[an..]]),
        "undeclared prefix" => cat(&[&t[..a0], b" q9:", t[a0..an].trim_ascii(), &t[an..]]),
        v => cat(&[&t[..v0], v.as_bytes(), &t[v1..]]),
    }
}
fn show(t: &[u8], at: usize) -> String {
    let a = at.saturating_sub(20);
    String::from_utf8_lossy(&t[a..(at + 40).min(t.len())]).into_owned()
}
fn with(e: &Entries, part: usize, data: Vec<u8>) -> Vec<u8> {
    let mut v = e.clone();
    v[part].1 = data;
    zipio::write_zip(&v)
}

pub fn check(deep: bool) -> Check {
    let xs = Arc::new(excel_sources());
    let ds = Arc::new(doc_sources());
    let mut spaces = vec![];
    // every file as (name, kind, entries)
    let all: Arc<Vec<(String, DocKind, Entries)>> = Arc::new(
        xs.iter().map(|(n, e)| (n.to_string(), DocKind::Excel, e.clone())).chain(ds.iter().map(|(n, k, e)| (n.to_string(), *k, e.clone()))).collect(),
    );
    let nses = |k: DocKind| if k == DocKind::Excel { SES.len() } else { 1 };
    // truncation at every byte
    {
        let files: Vec<(String, DocKind, Vec<u8>)> = all
            .iter()
            .flat_map(|(n, k, e)| vec![(format!("{n}, stored"), *k, zipio::write_zip(e)), (format!("{n}, deflated"), *k, deflated(e))])
            .collect();
        let mut idx: Vec<(usize, usize)> = vec![];
        for (i, f) in files.iter().enumerate() {
            // the large theme part adds nothing but length
            for n in 0..=f.2.len() {
                if deep || n % 3 == 0 || f.2.len() - n < 2000 || f.2.len() < 8000 {
                    idx.push((i, n));
                }
            }
        }
        let (f, i1) = (Arc::new(files), Arc::new(idx));
        let (f2, i2) = (f.clone(), i1.clone());
        spaces.push(Space::new(
            "truncated",
            &format!("{} files (2 workbooks, a text document, a presentation, stored and deflated) cut off {}", f.len(), if deep { "at every byte" } else { "at every byte (files over 8000 bytes: at every third and in the last 2000 bytes)" }),
            i1.len() as u64,
            move |i| format!("{} cut to {} bytes", f2[i2[i as usize].0].0, i2[i as usize].1),
            move |i, sc| {
                let (k, n) = i1[i as usize];
                let mut out = Out::default();
                judge(&Case { kind: f[k].1, bytes: &f[k].2[..n], ses: if n % 2 == 0 { Ses::Touch } else { Ses::Edit } }, sc, &mut out);
                out
            },
        ));
    }
    // every byte of the archive's structure, and of compressed data
    {
        let vals: &'static [fn(u8) -> u8] = &[|_| 0, |_| 0xff, |b| b ^ 1, |b| b ^ 0x80, |b| b.wrapping_add(1), |b| b ^ 0x20, |b| b ^ 8];
        let mut idx: Vec<(usize, usize)> = vec![];
        let mut files: Vec<(String, DocKind, Vec<u8>)> = vec![];
        for (n, k, e) in all.iter() {
            let small: Entries = e.iter().filter(|(n, _)| deep || n != "xl/theme/theme1.xml").cloned().collect();
            files.push((n.clone(), *k, deflated(if *k == DocKind::Excel { e } else { &small })));
        }
        for (i, f) in files.iter().enumerate() {
            let st = structure(&f.2);
            for p in 0..f.2.len() {
                // the structure densely, the data in between sparsely
                if st[p] || deep || p % 11 == 0 {
                    idx.push((i, p));
                }
            }
        }
        let nv = if deep { vals.len() } else { 4 };
        let (f, i1) = (Arc::new(files), Arc::new(idx));
        let (f2, i2) = (f.clone(), i1.clone());
        spaces.push(Space::new(
            "archive-bytes",
            &format!("{} deflated files, every byte of the archive's headers and directory{} set to {nv} other values", f.len(), if deep { " and of the compressed data" } else { ", every eleventh of the compressed data," }),
            (i1.len() * nv) as u64,
            move |i| {
                let (k, p) = i2[i as usize / nv];
                format!("{}: byte {p} set to {}", f2[k].0, vals[i as usize % nv](f2[k].2[p]))
            },
            move |i, sc| {
                let (k, p) = i1[i as usize / nv];
                let mut b = f[k].2.clone();
                b[p] = vals[i as usize % nv](b[p]);
                let mut out = Out::default();
                judge(&Case { kind: f[k].1, bytes: &b, ses: SES[p % 3] }, sc, &mut out);
                out
            },
        ));
    }
    // every byte of every XML part
    {
        const BO: &[&str] = &["removed", "<", ">", "&", "\"", " ", "NUL", "0xFF", "x", "doubled", "the rest missing", "/"];
        let mut idx: Vec<(usize, usize, usize)> = vec![];
        for (i, (n, k, e)) in all.iter().enumerate() {
            for (j, (pn, d)) in e.iter().enumerate() {
                if pn.contains("theme") || !(pn.ends_with(".xml") || pn.ends_with(".rels")) {
                    continue;
                }
                for p in 0..d.len() {
                    let every = if n == "rich" { if pn == "xl/styles.xml" { 40 } else { 8 } } else if n == "plain" { 3 } else { 1 };
                    if deep || p % every == 0 {
                        idx.push((i, j, p));
                    }
                }
            }
        }
        let no = BO.len();
        let (f, i1) = (all.clone(), Arc::new(idx));
        let (f2, i2) = (f.clone(), i1.clone());
        spaces.push(Space::new(
            "part-bytes",
            &format!("every byte{} of every XML part (without the theme) of {} files changed in {no} ways, the archive valid; session in turn", if deep { "" } else { " (plain workbook: every third, rich workbook: every eighth, of its styles every 40th)" }, all.len()),
            (i1.len() * no) as u64,
            move |i| {
                let (k, j, p) = i2[i as usize / no];
                let (n, d) = &f2[k].2[j];
                format!("{}, {n}, byte {p} ({:?}): {}, {:?}", f2[k].0, show(d, p), BO[i as usize % no], SES[(p + i as usize % no) % nses(f2[k].1)])
            },
            move |i, sc| {
                let (k, j, p) = i1[i as usize / no];
                let op = i as usize % no;
                let mut d = f[k].2[j].1.clone();
                match op {
                    0 => {
                        d.remove(p);
                    }
                    6 => d[p] = 0,
                    7 => d[p] = 0xff,
                    9 => d.insert(p, d[p]),
                    10 => d.truncate(p),
                    o => d[p] = BO[o].as_bytes()[0],
                }
                let b = with(&f[k].2, j, d);
                let mut out = Out::default();
                judge(&Case { kind: f[k].1, bytes: &b, ses: SES[(p + op) % nses(f[k].1)] }, sc, &mut out);
                out
            },
        ));
    }
    // every tag, every attribute
    {
        let mut idx: Vec<(usize, usize, usize, usize)> = vec![]; // file, part, tag, attribute (0: the tag itself)
        let mut tg: BTreeMap<(usize, usize), Vec<Tag>> = BTreeMap::new();
        for (i, (n, k, e)) in all.iter().enumerate() {
            for (j, (pn, d)) in e.iter().enumerate() {
                if pn.contains("theme") || !(pn.ends_with(".xml") || pn.ends_with(".rels")) {
                    continue;
                }
                let t = tags(d);
                for (x, t) in t.iter().enumerate() {
                    if t.open {
                        for a in 0..=t.attrs.len() {
                            idx.push((i, j, x, a));
                        }
                    }
                }
                tg.insert((i, j), t);
            }
        }
        let (nt, na) = (TAG_OPS.len(), ATTR_OPS.len());
        let mut cases: Vec<(u32, u8, u8)> = vec![]; // index, op, session
        for (x, q) in idx.iter().enumerate() {
            let ops = if q.3 == 0 { nt } else { na };
            for o in 0..ops {
                let ns = nses(all[q.0].1);
                if deep || all[q.0].0 != "rich" {
                    for s in 0..ns {
                        cases.push((x as u32, o as u8, s as u8));
                    }
                } else {
                    cases.push((x as u32, o as u8, ((x + o) % ns) as u8));
                }
            }
        }
        let (f, i1, c1, t1) = (all.clone(), Arc::new(idx), Arc::new(cases), Arc::new(tg));
        let (f2, i2, c2, t2) = (f.clone(), i1.clone(), c1.clone(), t1.clone());
        spaces.push(Space::new(
            "markup",
            &format!("every element of every XML part (without the theme) of {} files changed in {nt} ways, every attribute in {na} ways, {}", all.len(), if deep { "with every session" } else { "with every session (rich workbook: one in turn)" }),
            c1.len() as u64,
            move |i| {
                let (x, o, s) = c2[i as usize];
                let (k, j, t, a) = i2[x as usize];
                let d = &f2[k].2[j].1;
                let g = &t2[&(k, j)][t];
                let el = String::from_utf8_lossy(&d[g.name.0..g.name.1]);
                let what = if a == 0 { format!("element {el} {}", TAG_OPS[o as usize]) } else { let q = g.attrs[a - 1]; format!("{el}{}: {}", String::from_utf8_lossy(&d[q.0..q.3 + 1]), ATTR_OPS[o as usize]) };
                format!("{}, {} at {}: {what}, {:?}", f2[k].0, f2[k].2[j].0, g.s, SES[s as usize])
            },
            move |i, sc| {
                let (x, o, s) = c1[i as usize];
                let (k, j, t, a) = i1[x as usize];
                let d = &f[k].2[j].1;
                let tv = &t1[&(k, j)];
                let d = if a == 0 { mutate_tag(d, tv, t, o as usize) } else { mutate_attr(d, &tv[t].attrs[a - 1], o as usize) };
                let b = with(&f[k].2, j, d);
                let mut out = Out::default();
                judge(&Case { kind: f[k].1, bytes: &b, ses: SES[s as usize] }, sc, &mut out);
                out
            },
        ));
    }
    // parts removed, emptied, replaced: alone and in pairs
    {
        let mut idx: Vec<(usize, usize, usize, usize, usize)> = vec![];
        let no = PART_OPS.len();
        for (i, (_, _, e)) in all.iter().enumerate() {
            for a in 0..e.len() {
                for oa in 0..no {
                    idx.push((i, a, oa, a, oa));
                }
            }
            for a in 0..e.len() {
                for b in a + 1..e.len() {
                    for oa in 0..no {
                        for ob in 0..no {
                            if deep || (oa < 3 && ob < 3) || (i == 0 && (oa + ob) % 4 == 0) {
                                idx.push((i, a, oa, b, ob));
                            }
                        }
                    }
                }
            }
        }
        let (f, i1) = (all.clone(), Arc::new(idx));
        let (f2, i2) = (f.clone(), i1.clone());
        spaces.push(Space::new(
            "parts",
            &format!("every part of {} files alone and every pair of parts, each {} ({}), every session", all.len(), PART_OPS.join(", "), if deep { "all pairs of these" } else { "pairs: the first three, for the plain workbook a quarter of all" }),
            (i1.len() * SES.len()) as u64,
            move |i| {
                let (k, a, oa, b, ob) = i2[i as usize / 3];
                let e = &f2[k].2;
                format!("{}: {} {}{}, {:?}", f2[k].0, e[a].0, PART_OPS[oa], if a == b { String::new() } else { format!(", {} {}", e[b].0, PART_OPS[ob]) }, SES[i as usize % 3])
            },
            move |i, sc| {
                let (k, a, oa, b, ob) = i1[i as usize / 3];
                let ses = SES[i as usize % 3];
                if f[k].1 != DocKind::Excel && ses != Ses::Plain {
                    return Out::default();
                }
                let mut e = f[k].2.clone();
                // the later one first, so that removing does not shift the other
                if a != b {
                    part_op(&mut e, b, ob);
                }
                part_op(&mut e, a, oa);
                let z = zipio::write_zip(&e);
                let mut out = Out::default();
                judge(&Case { kind: f[k].1, bytes: &z, ses }, sc, &mut out);
                out
            },
        ));
    }
    // reading the source fails or comes in pieces
    {
        const ACTS: &[(&str, env::Act)] = &[("fails", env::Act::Fail(env::EIO)), ("is interrupted", env::Act::Fail(env::EINTR)), ("gives one byte", env::Act::Short(1)), ("gives half a header", env::Act::Short(15))];
        let files: Vec<(String, DocKind, Vec<u8>)> = all.iter().flat_map(|(n, k, e)| vec![(format!("{n}, stored"), *k, zipio::write_zip(e)), (format!("{n}, deflated"), *k, deflated(e))]).collect();
        // how many reads there are
        let counts: Vec<usize> = files
            .iter()
            .map(|(_, k, b)| {
                let (k, b) = (*k, b.clone());
                let dir = crate::engine::scratch_base().join("probe");
                let _ = std::fs::create_dir_all(&dir);
                let f = dir.join("src").to_string_lossy().into_owned();
                let n = std::thread::spawn(move || {
                    std::fs::write(&f, &b).expect("scratch");
                    env::begin(3);
                    let mut fs = env::Fs { root: f.clone(), ..Default::default() };
                    env::fs_on(&mut fs);
                    match k {
                        DocKind::Excel => drop(open(Some(&f))),
                        k => drop(roundtrip(k, Some(&f), &format!("{f}.out"))),
                    }
                    env::fs_off();
                    fs.reads
                })
                .join()
                .unwrap_or(0);
                let _ = std::fs::remove_dir_all(&dir);
                n + 2
            })
            .collect();
        let mut idx: Vec<(usize, usize, usize)> = vec![];
        for (i, n) in counts.iter().enumerate() {
            for k in 0..*n {
                for a in 0..ACTS.len() {
                    idx.push((i, k, a));
                }
            }
            for a in 1..ACTS.len() {
                idx.push((i, usize::MAX, a));
            }
        }
        idx.retain(|q| q.1 != usize::MAX || q.2 != 1);
        let (f, i1) = (Arc::new(files), Arc::new(idx));
        let (f2, i2) = (f.clone(), i1.clone());
        spaces.push(Space::new(
            "read-faults",
            &format!("{} files; each of the (up to {}) reads of the source fails, is interrupted, or gives 1 or 15 bytes only; every read gives that little", f.len(), counts.iter().max().unwrap_or(&0)),
            i1.len() as u64,
            move |i| {
                let (k, n, a) = i2[i as usize];
                format!("{}: {} {}", f2[k].0, if n == usize::MAX { "every read".to_string() } else { format!("read {n}") }, ACTS[a].0)
            },
            move |i, sc| {
                let (k, n, a) = i1[i as usize];
                let mut out = Out { nontrivial: true, ..Default::default() };
                read_fault(f[k].1, &f[k].2, n, &ACTS[a].1, sc, &mut out);
                out
            },
        ));
    }
    // things that are large, deep or no file at all
    {
        let v = Arc::new(extremes());
        let v2 = v.clone();
        spaces.push(Space::new(
            "extremes",
            "deep nesting, very long names, values and lists, references to references, archives with odd entries, files that are no archives, with every session",
            (v.len() * 3) as u64,
            move |i| format!("{}, {:?}", v2[i as usize / 3].0, SES[i as usize % 3]),
            move |i, sc| {
                let mut out = Out::default();
                let b = (v[i as usize / 3].2)();
                judge(&Case { kind: v[i as usize / 3].1, bytes: &b, ses: SES[i as usize % 3] }, sc, &mut out);
                out
            },
        ));
    }
    Check {
        id: "C18",
        level: "exploration",
        rule: "a case is a file derived from a valid one by one (or two) stated changes and a session of library calls on it; distinct by file, change and session; judged: no panic, no end of the process, no hang, the source file unchanged, and if the save succeeds the saved package still has every part of the changed source with its information (a malformed part byte by byte)",
        assumptions: vec![
            "the sources are in the library's own form, so that a save without edits is expected to change nothing but the modification time, used range and counts",
            "text beside child elements and the count attributes are not judged",
        ],
        spaces,
    }
}
const PART_OPS: &[&str] = &["missing", "empty", "no XML", "cut in half", "the content of the part before it", "UTF-16", "with a byte order mark", "with a document type", "another root", "twice under the same name", "under a name in other case", "Latin-1"];
fn part_op(e: &mut Entries, k: usize, op: usize) {
    let d = e[k].1.clone();
    let at = d.windows(2).position(|w| w == b"?>").map(|p| p + 2).unwrap_or(0);
    match op {
        0 => {
            e.remove(k);
        }
        1 => e[k].1 = vec![],
        2 => e[k].1 = b"\x00\x01 no xml <<< &".to_vec(),
        3 => e[k].1.truncate(d.len() / 2),
        4 => e[k].1 = e[if k == 0 { e.len() - 1 } else { k - 1 }].1.clone(),
        5 => {
            let s = String::from_utf8_lossy(&d).replace("UTF-8", "UTF-16");
            let mut v = vec![0xff, 0xfe];
            for u in s.encode_utf16() {
                v.extend_from_slice(&u.to_le_bytes());
            }
            e[k].1 = v;
        }
        6 => e[k].1 = [&[0xef, 0xbb, 0xbf][..], &d].concat(),
        7 => e[k].1 = [&d[..at], b"<!DOCTYPE r [<!ENTITY a \"b\">]>", &d[at..]].concat(),
        8 => e[k].1 = b"<?xml version=\"1.0\"?><other xmlns=\"urn:o\"><a/></other>".to_vec(),
        9 => {
            let x = e[k].clone();
            e.push(x);
        }
        10 => e[k].0 = e[k].0.to_ascii_uppercase(),
        _ => {
            let s = String::from_utf8_lossy(&d).replace("UTF-8", "ISO-8859-1");
            e[k].1 = s.into_bytes();
            let p = e[k].1.len() / 2;
            e[k].1.insert(p, 0xe9);
        }
    }
}
/// Which bytes belong to headers and directory.
fn structure(b: &[u8]) -> Vec<bool> {
    let mut v = vec![true; b.len()];
    let u16a = |p: usize| u16::from_le_bytes([b[p], b[p + 1]]) as usize;
    let u32a = |p: usize| u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]) as usize;
    let mut p = 0;
    while b[p..].starts_with(&[0x50, 0x4b, 3, 4]) {
        let d = p + 30 + u16a(p + 26) + u16a(p + 28);
        let e = d + u32a(p + 18);
        v[d..e].fill(false);
        p = e;
    }
    v
}
type Make = Box<dyn Fn() -> Vec<u8> + Send + Sync>;
fn extremes() -> Vec<(String, DocKind, Make)> {
    let mut v: Vec<(String, DocKind, Make)> = vec![];
    let mut add = |n: String, k: DocKind, f: Make| v.push((n, k, f));
    let sheet = |body: String| {
        let mut w = books::plain();
        w.calc = None;
        w.sheets[0].2 = fx::sheet(&body);
        w.zip()
    };
    for d in [100usize, 1000, 10_000, 100_000, 1_000_000] {
        add(format!("a sheet nested {d} deep"), DocKind::Excel, Box::new(move || sheet(format!("<sheetData/><extLst><ext>{}{}</ext></extLst>", "<a>".repeat(d), "</a>".repeat(d)))));
        add(format!("a sheet nested {d} deep, not closed"), DocKind::Excel, Box::new(move || sheet("<a>".repeat(d))));
        add(format!("a workbook nested {d} deep"), DocKind::Excel, Box::new(move || {
            let mut w = books::plain();
            w.post = format!("<extLst><ext>{}{}</ext></extLst>", "<a>".repeat(d), "</a>".repeat(d));
            w.zip()
        }));
        add(format!("shared strings nested {d} deep"), DocKind::Excel, Box::new(move || {
            let mut w = books::plain();
            w.sst = Some(fx::sst(&format!("<si><t>a</t></si><si>{}{}</si><si><t/></si><si><t/></si>", "<r>".repeat(d), "</r>".repeat(d))));
            w.zip()
        }));
        add(format!("core properties nested {d} deep"), DocKind::Word, Box::new(move || fx::doc_pkg(true, Some(&fx::CORE.replace("</cp:coreProperties>", &format!("{}{}</cp:coreProperties>", "<a>".repeat(d), "</a>".repeat(d))))).zip()));
    }
    for n in [1000usize, 65_536, 1_000_000] {
        add(format!("an attribute of {n} characters"), DocKind::Excel, Box::new(move || sheet(format!("<sheetPr codeName=\"{}\"/><sheetData/>", "n".repeat(n)))));
        add(format!("a text of {n} characters"), DocKind::Excel, Box::new(move || sheet(format!("<sheetData><row r=\"1\"><c r=\"A1\" t=\"inlineStr\"><is><t>{}</t></is></c></row></sheetData>", "t".repeat(n)))));
        add(format!("a reference of {n} characters"), DocKind::Excel, Box::new(move || sheet(format!("<sheetData><row r=\"1\"><c r=\"{}1\"><v>1</v></c></row></sheetData>", "A".repeat(n)))));
        add(format!("a row number of {n} digits"), DocKind::Excel, Box::new(move || sheet(format!("<sheetData><row r=\"{}\"><c><v>1</v></c></row></sheetData>", "1".repeat(n)))));
        add(format!("a name of {n} characters"), DocKind::Excel, Box::new(move || {
            let mut w = books::plain();
            w.sheets[0].0 = "n".repeat(n);
            w.zip()
        }));
        add(format!("an element name of {n} characters"), DocKind::Excel, Box::new(move || sheet(format!("<sheetData/><{0}/>", "e".repeat(n)))));
    }
    for n in [100usize, 5000] {
        add(format!("{n} attributes"), DocKind::Excel, Box::new(move || sheet(format!("<sheetPr {}/><sheetData/>", (0..n).map(|i| format!("a{i}=\"1\"")).collect::<Vec<_>>().join(" ")))));
        add(format!("{n} namespace declarations"), DocKind::Excel, Box::new(move || sheet(format!("<sheetPr {}/><sheetData/>", (0..n).map(|i| format!("xmlns:a{i}=\"urn:{i}\"")).collect::<Vec<_>>().join(" ")))));
        add(format!("{n} sheets of the same part"), DocKind::Excel, Box::new(move || {
            let mut w = books::plain();
            w.post = String::new();
            let p = w.pkg();
            let mut e = p.entries();
            for x in e.iter_mut() {
                if x.0 == "xl/workbook.xml" {
                    let s = String::from_utf8(x.1.clone()).unwrap();
                    let more: String = (0..n).map(|i| format!("<sheet name=\"S{i}\" sheetId=\"{}\" r:id=\"rId1\"/>", i + 10)).collect();
                    x.1 = s.replace("</sheets>", &format!("{more}</sheets>")).into_bytes();
                }
            }
            zipio::write_zip(&e)
        }));
        add(format!("{n} content type defaults"), DocKind::Excel, Box::new(move || {
            let mut w = books::plain();
            for i in 0..n {
                w.extra.def(&format!("x{i}"), "application/x");
            }
            w.zip()
        }));
    }
    let wb_with = |from: &'static str, to: String| {
        let e: Entries = books::plain()
            .pkg()
            .entries()
            .into_iter()
            .map(|(n, d)| {
                let d = if n == "xl/workbook.xml" { String::from_utf8(d).unwrap().replace(from, &to).into_bytes() } else { d };
                (n, d)
            })
            .collect();
        zipio::write_zip(&e)
    };
    for (n, id) in [("4294967295", "4294967295"), ("4294967294", "4294967294"), ("65535", "65535"), ("18446744073709551615", "18446744073709551615"), ("-1", "-1"), ("0", "0")] {
        add(format!("a sheet id of {n}"), DocKind::Excel, Box::new(move || wb_with("sheetId=\"2\"", format!("sheetId=\"{id}\""))));
    }
    for id in ["rId4294967295", "rId18446744073709551615", "rId-1", "rId", "", "rId99999999999999999999999"] {
        add(format!("a relationship id {id:?}"), DocKind::Excel, Box::new(move || {
            let e: Entries = books::plain()
                .pkg()
                .entries()
                .into_iter()
                .map(|(n, d)| {
                    let d = if n == "xl/workbook.xml" || n == "xl/_rels/workbook.xml.rels" { String::from_utf8(d).unwrap().replace("\"rId2\"", &format!("\"{id}\"")).into_bytes() } else { d };
                    (n, d)
                })
                .collect();
            zipio::write_zip(&e)
        }));
    }
    for id in ["0", "163", "164", "65535", "4294967294", "4294967295", "4294967296", "9223372036854775807", "18446744073709551614", "18446744073709551615", "18446744073709551616", "-1", ""] {
        add(format!("a number format id {id:?}"), DocKind::Excel, Box::new(move || {
            let mut w = books::plain();
            w.styles = Some(w.styles.clone().unwrap_or_default().replacen("<fonts", &format!("<numFmts count=\"1\"><numFmt numFmtId=\"{id}\" formatCode=\"0.0\"/></numFmts><fonts"), 1));
            w.zip()
        }));
    }
    // references to references
    let bomb = "<!DOCTYPE w [<!ENTITY a \"aaaaaaaaaa\"><!ENTITY b \"&a;&a;&a;&a;&a;&a;&a;&a;&a;&a;\"><!ENTITY c \"&b;&b;&b;&b;&b;&b;&b;&b;&b;&b;\"><!ENTITY d \"&c;&c;&c;&c;&c;&c;&c;&c;&c;&c;\"><!ENTITY e \"&d;&d;&d;&d;&d;&d;&d;&d;&d;&d;\"><!ENTITY f \"&e;&e;&e;&e;&e;&e;&e;&e;&e;&e;\"><!ENTITY g \"&f;&f;&f;&f;&f;&f;&f;&f;&f;&f;\"><!ENTITY h \"&g;&g;&g;&g;&g;&g;&g;&g;&g;&g;\">]>";
    for part in ["xl/workbook.xml", "xl/worksheets/sheet1.xml", "xl/sharedStrings.xml", "xl/styles.xml", "[Content_Types].xml", "_rels/.rels"] {
        add(format!("references to references in {part}"), DocKind::Excel, Box::new(move || {
            let e: Entries = books::plain()
                .pkg()
                .entries()
                .into_iter()
                .map(|(n, d)| {
                    let d = if n == part {
                        let s = String::from_utf8(d).unwrap();
                        let p = s.find("?>").unwrap() + 2;
                        let q = s.rfind("</").unwrap();
                        format!("{}{bomb}{}<x>&h;</x>{}", &s[..p], &s[p..q], &s[q..]).into_bytes()
                    } else {
                        d
                    };
                    (n, d)
                })
                .collect();
            zipio::write_zip(&e)
        }));
    }
    // archives
    for (n, name) in [("a directory entry", "xl/dir/"), ("an entry above the root", "../../evil.xml"), ("an absolute entry", "/xl/abs.xml"), ("an entry without a name", ""), ("a back slash", "xl\\back.xml"), ("an entry of a device's name", "CON"), ("two slashes", "xl//x.xml"), ("a dot segment", "xl/./x.xml"), ("a name with NUL", "xl/a\u{0}b.xml")] {
        add(format!("an archive with {n}"), DocKind::Excel, Box::new(move || {
            let mut e = books::plain().pkg().entries();
            e.push((name.to_string(), if name.ends_with('/') { vec![] } else { b"<a/>".to_vec() }));
            zipio::write_zip(&e)
        }));
    }
    for size in [0u32, 1, 0x7fff_ffff, 0xffff_fffe] {
        add(format!("an archive whose directory claims {size} bytes for the first part"), DocKind::Excel, Box::new(move || {
            let mut b = deflated(&books::plain().pkg().entries());
            let p = b.windows(4).position(|w| w == [0x50, 0x4b, 1, 2]).unwrap();
            b[p + 24..p + 28].copy_from_slice(&size.to_le_bytes());
            b[22..26].copy_from_slice(&size.to_le_bytes());
            b
        }));
    }
    for (n, b) in [("an empty file", vec![]), ("four bytes", b"PK\x03\x04".to_vec()), ("a text file", b"hello".to_vec()), ("an end of directory only", b"PK\x05\x06\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0".to_vec()), ("an old binary file", b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1\0\0\0\0".repeat(100)), ("zeros", vec![0; 100_000])] {
        for k in [DocKind::Excel, DocKind::Word, DocKind::Ppt] {
            let b = b.clone();
            add(format!("{n} as {k:?}"), k, Box::new(move || b.clone()));
        }
    }
    // a document of another kind
    for (n, f) in [("text document", true), ("presentation", false)] {
        for k in [DocKind::Excel, DocKind::Word, DocKind::Ppt] {
            add(format!("a {n} as {k:?}"), k, Box::new(move || fx::doc_pkg(f, Some(fx::CORE)).zip()));
        }
    }
    for k in [DocKind::Word, DocKind::Ppt] {
        add(format!("a workbook as {k:?}"), k, Box::new(|| books::plain().zip()));
    }
    v
}
