//! Core properties change only where they should.
use super::common::*;
use crate::books;
use crate::env;
use std::sync::Arc;

const TERMS: &str = "http://purl.org/dc/terms/";
const KINDS: &[DocKind] = &[DocKind::Excel, DocKind::Word, DocKind::Ppt];
/// (plain element, element without text, element with odd text)
const PROPS: &[&str] = &[
    "<dc:title>T &amp; t</dc:title>",
    "<dc:subject xml:lang=\"de\"> two  words </dc:subject>",
    "<dc:creator>Ann</dc:creator>",
    "<cp:keywords xml:lang=\"en\">a; <cp:value xml:lang=\"de\">c</cp:value><cp:value>d</cp:value>; b</cp:keywords>",
    "<dc:description>line\n_x000d_ &lt;b&gt; ]]&gt; \"q\"</dc:description>",
    "<cp:lastModifiedBy/>",
    "<cp:revision>7</cp:revision>",
    "<dcterms:created xsi:type=\"dcterms:W3CDTF\">2001-02-03T04:05:06Z</dcterms:created>",
    "<dcterms:modified xsi:type=\"dcterms:W3CDTF\">2002-02-03T04:05:06Z</dcterms:modified>",
    "<cp:lastPrinted>1999-01-01T00:00:00Z</cp:lastPrinted>",
    "<cp:category></cp:category>",
    "<cp:contentStatus>Draft</cp:contentStatus>",
    "<dc:language>en-US</dc:language>",
    "<dc:identifier>id</dc:identifier>",
    "<cp:version>1.0</cp:version>",
    "<x:own xmlns:x=\"urn:own\" x:modified=\"m\"><x:created>c</x:created><x:modified>m</x:modified></x:own>",
];
const ROOT: &str = "<cp:coreProperties xmlns:cp=\"http://schemas.openxmlformats.org/package/2006/metadata/core-properties\" xmlns:dc=\"http://purl.org/dc/elements/1.1/\" xmlns:dcterms=\"http://purl.org/dc/terms/\" xmlns:dcmitype=\"http://purl.org/dc/dcmitype/\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\">";
fn core(items: &str) -> String {
    format!("{}{ROOT}{items}</cp:coreProperties>", fx::DECL)
}
fn odd_cores() -> Vec<(&'static str, String)> {
    let created = "2001-02-03T04:05:06Z";
    vec![
        ("other prefixes", format!("<?xml version='1.0'?><coreProperties xmlns='http://schemas.openxmlformats.org/package/2006/metadata/core-properties' xmlns:t='{TERMS}' xmlns:i='http://www.w3.org/2001/XMLSchema-instance'><t:modified i:type='t:W3CDTF'>2002-02-03T04:05:06Z</t:modified><t:created i:type='t:W3CDTF'>{created}</t:created></coreProperties>")),
        ("prefixes declared on the elements", format!("<?xml version='1.0'?><cp:coreProperties xmlns:cp='http://schemas.openxmlformats.org/package/2006/metadata/core-properties'><a:created xmlns:a='{TERMS}'>{created}</a:created><modified xmlns='{TERMS}'>2002-02-03T04:05:06Z</modified></cp:coreProperties>")),
        ("a modified of another namespace first", core(&format!("<x:modified xmlns:x=\"urn:x\">keep</x:modified><cp:created>keep</cp:created><dcterms:created xsi:type=\"dcterms:W3CDTF\">{created}</dcterms:created><dcterms:modified xsi:type=\"dcterms:W3CDTF\">2002-02-03T04:05:06Z</dcterms:modified>"))),
        ("only a modified of another namespace", core("<x:modified xmlns:x=\"urn:x\">keep</x:modified><dc:modified>keep</dc:modified>")),
        ("created with an offset", core("<dcterms:created xsi:type=\"dcterms:W3CDTF\">2001-02-03T04:05:06.789+05:30</dcterms:created>")),
        ("created is a year", core("<dcterms:created xsi:type=\"dcterms:W3CDTF\">2001</dcterms:created><dcterms:modified xsi:type=\"dcterms:W3CDTF\">2001</dcterms:modified>")),
        ("created is no date", core("<dcterms:created>soon</dcterms:created><dcterms:modified>never</dcterms:modified>")),
        ("white space around", core(&format!("\n  <dcterms:created xsi:type=\"dcterms:W3CDTF\"> {created} </dcterms:created>\n  <dcterms:modified xsi:type=\"dcterms:W3CDTF\">\n2002-02-03T04:05:06Z\n</dcterms:modified>\n"))),
        ("no type attribute", core(&format!("<dcterms:created>{created}</dcterms:created><dcterms:modified>2002-02-03T04:05:06Z</dcterms:modified>"))),
        ("empty modified", core(&format!("<dcterms:created>{created}</dcterms:created><dcterms:modified/>"))),
        ("modified in a character data section", core(&format!("<dcterms:created><![CDATA[{created}]]></dcterms:created><dcterms:modified><![CDATA[2002-02-03T04:05:06Z]]></dcterms:modified>"))),
        ("no elements", core("")),
        ("no elements, self closed", format!("<?xml version='1.0'?>{}", ROOT.replace('>', "/>"))),
        ("comments and instructions", core(&format!("<!-- a --><dcterms:created>2001-<!-- b -->02-03T04:05:06Z</dcterms:created><?p i?><dcterms:modified>2002-02-03T04:05:06Z</dcterms:modified>"))),
        ("compatibility markup", format!("<?xml version='1.0'?>{}<dcterms:created>{created}</dcterms:created><mc:AlternateContent xmlns:q=\"urn:q\" xmlns:mc=\"http://schemas.openxmlformats.org/markup-compatibility/2006\"><mc:Choice Requires=\"q\"><dcterms:modified>inner</dcterms:modified></mc:Choice></mc:AlternateContent><dcterms:modified>2002-02-03T04:05:06Z</dcterms:modified></cp:coreProperties>", ROOT)),
    ]
}
fn doc(kind: DocKind, core: Option<&str>) -> Vec<u8> {
    match kind {
        DocKind::Excel => {
            let mut w = books::plain();
            w.core = core.map(|s| s.to_string());
            w.zip()
        }
        k => fx::doc_pkg(k == DocKind::Word, core).zip(),
    }
}
/// Seconds since the epoch of a W3CDTF date and time; None: not one.
pub fn instant(s: &str) -> Option<i64> {
    let s = s.trim();
    let (d, t) = s.split_once('T')?;
    let n: Vec<i64> = d.split('-').map(|x| x.parse().ok()).collect::<Option<_>>()?;
    let [y, m, day] = n[..] else { return None };
    let (t, off) = if let Some(t) = t.strip_suffix('Z') {
        (t, 0)
    } else {
        let i = t.rfind(['+', '-'])?;
        let (h, m) = t[i + 1..].split_once(':')?;
        let o = h.parse::<i64>().ok()? * 3600 + m.parse::<i64>().ok()? * 60;
        (&t[..i], if t.as_bytes()[i] == b'-' { -o } else { o })
    };
    let p: Vec<&str> = t.split(':').collect();
    let (h, mi, se) = match p[..] {
        [h, m] => (h.parse::<i64>().ok()?, m.parse::<i64>().ok()?, 0),
        [h, m, s] => (h.parse().ok()?, m.parse().ok()?, s.split('.').next()?.parse::<i64>().ok()?),
        _ => return None,
    };
    if !(1..=12).contains(&m) || !(1..=31).contains(&day) || h > 23 || mi > 59 || se > 60 {
        return None;
    }
    let (y2, m2) = if m <= 2 { (y - 1, m + 9) } else { (y, m - 3) };
    let era = y2.div_euclid(400);
    let yoe = y2.rem_euclid(400);
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + (153 * m2 + 2) / 5 + day - 1;
    Some((era * 146097 + doe - 719468) * 86400 + h * 3600 + mi * 60 + se - off)
}
fn term<'a>(e: &'a Elem, local: &str) -> Vec<&'a Elem> {
    e.elems().filter(|k| k.name.ns == TERMS && k.name.local == local).collect()
}
fn core_of(b: &[u8]) -> Result<(Elem, Package), String> {
    let p = Package::read(b)?;
    let n: Vec<_> = p.rels("")?.into_iter().filter(|r| r.ty == opc::R_CORE).collect();
    match n.as_slice() {
        [r] => {
            let x = p.parts.get(&r.part).ok_or("the core properties part is missing")?;
            let e = xml::parse(x).map_err(|e| format!("core properties: {e}"))?;
            Ok((e, p))
        }
        v => Err(format!("{} relationships to core properties", v.len())),
    }
}
fn modified_at(e: &Elem, t: i64) -> Option<String> {
    match term(e, "modified").as_slice() {
        [m] => match instant(&m.text()) {
            Some(x) if x == t => {
                if m.has_elems() {
                    return Some("modified has elements".into());
                }
                None
            }
            _ => Some(format!("modified is {:?}, the save was at {t}", m.text())),
        },
        v => Some(format!("{} modification times", v.len())),
    }
}
/// Everything but the modification time.
fn without(e: &Elem) -> Elem {
    let mut e = e.clone();
    e.kids.retain(|k| !matches!(k, Node::E(x) if x.name.ns == TERMS && x.name.local == "modified"));
    e
}
fn type_of(e: &Elem) -> Option<String> {
    term(e, "modified").first().and_then(|m| m.attrs.iter().find(|(k, _)| k.local == "type").map(|(_, v)| v.clone()))
}
fn save_at(kind: DocKind, src: Option<&[u8]>, opened: i64, saved: i64, edit: bool, sc: &Scratch) -> Result<Vec<u8>, String> {
    env::set_clock(opened);
    let p = src.map(|b| sc.put("src", b));
    let out = sc.file("out");
    let path = p.clone();
    let r = match kind {
        DocKind::Excel => match open(path.as_deref()) {
            Res::Ok(mut x) => {
                if edit {
                    let w = if src.is_some() { x.get("A") } else { x.add(Some("A")) };
                    match w {
                        Res::Ok(mut w) => {
                            ws_call(&mut w, |w| w.set_row_value_index_mut(1, 1, vec![cell("e", CellDataType::ShareString)]));
                            ws_drop(w);
                        }
                        r => return Err(r.show()),
                    }
                }
                env::set_clock(saved);
                x.save(&out)
            }
            Res::Err(e) => Res::Err(e),
            Res::Panic(e) => Res::Panic(e),
        },
        k => crate::drv::with_doc(k, path.as_deref(), || env::set_clock(saved), &out),
    };
    match r {
        Res::Ok(()) => std::fs::read(&out).map_err(|e| e.to_string()),
        r => Err(r.show()),
    }
}
/// A chain of saves at the given times; each must record its time and leave the rest alone.
fn chain(kind: DocKind, src: Option<Vec<u8>>, times: &[(i64, i64)], edit: bool, sc: &Scratch) -> Out {
    let mut out = Out { nontrivial: true, ..Default::default() };
    let mut cur = src;
    for (i, (o, s)) in times.iter().enumerate() {
        out.transitions += 1;
        let before = match &cur {
            Some(b) => Some(match core_of(b) {
                Ok((e, _)) => Some(e),
                Err(e) if e.starts_with("0 ") => None,
                Err(e) => {
                    out.bad(e);
                    return out;
                }
            }),
            None => None,
        };
        let b = match save_at(kind, cur.as_deref(), *o, *s, edit, sc) {
            Ok(b) => b,
            Err(e) => {
                out.bad(format!("save {}: {e}", i + 1));
                return out;
            }
        };
        let (e, p) = match core_of(&b) {
            Ok(x) => x,
            Err(e) => {
                out.bad(format!("save {}: {e}", i + 1));
                return out;
            }
        };
        if p.rels("").is_ok_and(|r| r.iter().find(|r| r.ty == opc::R_CORE).is_some_and(|r| p.content_type(&r.part) != Some(fx::CT_CORE))) {
            out.bad("the core properties part has another content type");
        }
        if let Some(m) = modified_at(&e, *s) {
            out.bad(format!("save {}: {m}", i + 1));
        }
        match before {
            // a new document
            None => match term(&e, "created").as_slice() {
                [c] if instant(&c.text()).is_some_and(|t| t >= *o.min(s) && t <= *s.max(o)) => {}
                [c] => out.bad(format!("a new document made between {o} and {s} was created {:?}", c.text())),
                v => out.bad(format!("a new document has {} creation times", v.len())),
            },
            // an opened document without core properties
            Some(None) => {
                if term(&e, "created").len() > 1 {
                    out.bad("several creation times");
                }
            }
            Some(Some(was)) => {
                if let Some(d) = diff(&without(&was), &without(&e)) {
                    out.bad(format!("save {}: {d}", i + 1));
                }
                if let Some(t) = type_of(&was) {
                    if type_of(&e).as_ref() != Some(&t) {
                        out.bad(format!("save {}: the type of modified was {t}, is {:?}", i + 1, type_of(&e)));
                    }
                }
                // its place among the others
                let pos = |e: &Elem| e.elems().position(|k| k.name.ns == TERMS && k.name.local == "modified");
                if let Some(p) = pos(&was) {
                    if pos(&e) != Some(p) {
                        out.bad(format!("save {}: modified has moved", i + 1));
                    }
                }
            }
        }
        out.states.push(h64(&(e.canon(), i)));
        out.outcome = h64(&e.canon());
        cur = Some(b);
    }
    out
}
pub fn check(deep: bool) -> Check {
    let mut spaces = vec![];
    let n = PROPS.len();
    let kinds = KINDS.len() as u64;
    // every set of properties
    {
        let per = 1u64 << n;
        let kk = if deep { 3 } else { 1 };
        spaces.push(Space::new(
            "property-sets",
            &format!("all 2^{n} sets of {n} core properties (also with white space, references, empty, unknown ones), {} document kinds, two saves", if deep { "each of 3" } else { "in turn 3" }),
            per * kk,
            move |i| format!("{:?}: {}", KINDS[((i + i / per) % kinds) as usize], (0..n).filter(|b| i % per >> b & 1 == 1).map(|b| PROPS[b]).collect::<String>()),
            move |i, sc| {
                let kind = KINDS[((i + i / per) % kinds) as usize];
                let items: String = (0..n).filter(|b| i % per >> b & 1 == 1).map(|b| PROPS[b]).collect();
                chain(kind, Some(doc(kind, Some(&core(&items)))), &[(1_500_000_000, 1_600_000_000), (1_600_000_005, 1_600_000_010)], false, sc)
            },
        ));
    }
    // every order of up to 3 or 4 properties
    {
        let len = if deep { 4 } else { 3 };
        let k = n as u64;
        let per = seq_total(k, len);
        spaces.push(Space::new(
            "orders",
            &format!("every sequence without repetition of up to {len} properties"),
            per,
            move |i| format!("{:?}: {}", KINDS[(i % kinds) as usize], seq_at(k, i).iter().map(|b| PROPS[*b]).collect::<String>()),
            move |i, sc| {
                let v = seq_at(k, i);
                if (1..v.len()).any(|a| v[..a].contains(&v[a])) {
                    return Out::default();
                }
                let kind = KINDS[(i % kinds) as usize];
                let items: String = v.iter().map(|b| PROPS[*b]).collect();
                chain(kind, Some(doc(kind, Some(&core(&items)))), &[(1_500_000_000, 1_600_000_000)], false, sc)
            },
        ));
    }
    // odd spellings and histories of saves
    {
        let mut v: Vec<(String, Option<Option<String>>)> = vec![("a new document".into(), None), ("no core properties".into(), Some(None)), ("usual".into(), Some(Some(fx::CORE.into())))];
        v.extend(odd_cores().into_iter().map(|(n, c)| (n.to_string(), Some(Some(c)))));
        let v = Arc::new(v);
        const TIMES: &[i64] = &[1, 951_782_399, 951_782_400, 1_600_000_000, 1_709_164_800, 4_102_444_799, 2_147_483_648, 253_402_300_799];
        let nt = TIMES.len() as u64;
        let len = if deep { 4 } else { 3 };
        let per = seq_total(nt, len);
        let (v2, m) = (v.clone(), v.len() as u64);
        spaces.push(Space::new(
            "save-histories",
            &format!("{m} core parts in odd spellings, none, and new documents; every sequence of up to {len} saves at {nt} times (first second, leap days, ends of centuries, past 2038, end of the calendar), also backwards; the document was opened a day before it is saved; kinds and an edit in turn"),
            per * m,
            move |i| format!("{:?} {}: saves at {:?}", KINDS[(i % kinds) as usize], v2[(i / per) as usize].0, seq_at(nt, i % per).iter().map(|t| TIMES[*t as usize]).collect::<Vec<_>>()),
            move |i, sc| {
                let kind = KINDS[(i % kinds) as usize];
                let t: Vec<(i64, i64)> = seq_at(nt, i % per).iter().map(|t| TIMES[*t as usize]).map(|s| ((s - 86_400).max(1), s)).collect();
                let src = v[(i / per) as usize].1.as_ref().map(|c| doc(kind, c.as_deref()));
                chain(kind, src, &t, i / kinds % 2 == 1, sc)
            },
        ));
    }
    // every day of some years, every second of a day around midnight
    {
        let days = if deep { 366 * 60 } else { 366 * 8 };
        spaces.push(Space::new(
            "days",
            &format!("a new document of each kind in turn on each of {days} days from 1 January 2020 (to the second before midnight), saved again a second later"),
            days,
            |i| format!("day {i}"),
            move |i, sc| {
                let t = 1_577_836_800 + i as i64 * 86_400 + 86_399;
                chain(KINDS[(i % 3) as usize], None, &[(t - 5, t), (t + 1, t + 1)], false, sc)
            },
        ));
    }
    // part position and relationship forms
    {
        const POS: &[(&str, &str)] = &[("docProps/core.xml", "docProps/core.xml"), ("docProps/core.xml", "/docProps/core.xml"), ("core.xml", "core.xml"), ("a/b.psmdcp", "/a/b.psmdcp"), ("DOCPROPS/Core.XML", "DOCPROPS/Core.XML"), ("docProps/core", "./docProps/core"), ("x/y/z/core.xml", "q/../x/y/z/core.xml")];
        let m = POS.len();
        spaces.push(Space::new(
            "positions",
            "core properties parts of seven names and target spellings, with each document kind, declared by an override or a default, with one further part of the same type that no relationship leads to",
            (m * 3 * 2 * 2) as u64,
            move |i| {
                let mut d = Dig(i);
                let (p, k, o, s) = (d.take(m), d.take(3), d.take(2), d.take(2));
                format!("{:?} {:?} {} {}", KINDS[k], POS[p], ["override", "default"][o], ["", "stray part"][s])
            },
            move |i, sc| {
                let mut d = Dig(i);
                let (p, k, o, s) = (d.take(m), d.take(3), d.take(2), d.take(2));
                let kind = KINDS[k];
                let mut pk = match kind {
                    DocKind::Excel => {
                        let mut w = books::plain();
                        w.core = None;
                        w.pkg()
                    }
                    k => fx::doc_pkg(k == DocKind::Word, None),
                };
                let ext = POS[p].0.rsplit('/').next().unwrap().rsplit_once('.').map(|x| x.1);
                if o == 1 && (ext.is_none() || ext.is_some_and(|e| e.eq_ignore_ascii_case("xml"))) {
                    return Out::default();
                }
                if o == 1 {
                    pk.def(ext.unwrap(), fx::CT_CORE);
                    pk.part(POS[p].0, None, fx::CORE);
                } else {
                    pk.part(POS[p].0, Some(fx::CT_CORE), fx::CORE);
                }
                pk.rel("", "rIdP", opc::R_CORE, POS[p].1, false);
                if s == 1 {
                    pk.part("docProps/core9.xml", Some("application/x"), fx::CORE);
                }
                let mut out = chain(kind, Some(pk.zip()), &[(1_500_000_000, 1_600_000_000), (1_600_000_000, 1_700_000_000)], true, sc);
                if s == 1 {
                    // judged by the other checks; here only that it is not the one updated
                    out.outcome = i;
                }
                out
            },
        ));
    }
    Check {
        id: "C17",
        level: "model_checking",
        rule: "a case is a document with chosen core properties and a sequence of saves at chosen times (the clock is the harness's); after each save the core properties part is found through the package and compared with the one before, the modification time with the time of the save; distinct by document and times",
        assumptions: vec!["the time of a save is the clock at the save call, the document having been opened earlier", "the modification time may be spelled in any W3CDTF form", "a document that is opened and has no core properties may or may not get a creation time"],
        spaces,
    }
}
