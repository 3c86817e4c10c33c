use super::c01;
use super::common::*;
use crate::books;
use crate::sim::*;
use std::sync::Arc;

const ASPECTS: u32 = A_PARTS | A_OPC | A_RES;

const NAMES: &[&str] = &[
    "custom.xml",
    "xl/custom/item.xml",
    "xl/media/image1.png",
    "XL/Media/Photo.PNG",
    "xl/embeddings/my%20file.bin",
    "xl/\u{e9}t\u{e9}/\u{8ab2}.dat",
    "noextension",
    "xl/worksheets/sheet9.xml",
    "xl/a.b.c/d.e.f",
    "docProps/app.xml",
    "docProps/core2.xml",
    "xl/styles2.xml",
    "customXml/_rels.xml",
    "xl/webextensions/webextension1.xml",
];
/// bytes a part may hold that is no business of the library
fn data(i: usize) -> Vec<u8> {
    match i {
        0 => b"<?xml version=\"1.0\"?>\r\n<a  b = 'c' >\r\n t &#10; <!--x--><![CDATA[<]]></a >\n".to_vec(),
        1 => vec![],
        2 => (0..=255u8).collect(),
        3 => b"<worksheet><unclosed".to_vec(),
        4 => "\u{feff}<?xml version=\"1.0\" encoding=\"utf-8\"?><a/>".as_bytes().to_vec(),
        5 => "<?xml version=\"1.0\" encoding=\"UTF-16\"?><a>x</a>".encode_utf16().fold(vec![0xff, 0xfe], |mut v, u| {
            v.extend(u.to_le_bytes());
            v
        }),
        6 => vec![0x50, 0x4b, 3, 4, 0, 0, 0, 0],
        _ => {
            // large and repetitive, then large and not
            let mut v = vec![b'a'; 20000];
            let mut x = 1u32;
            for _ in 0..20000 {
                x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                v.push((x >> 24) as u8);
            }
            v
        }
    }
}
/// Bytes of a given length: all zero, without pattern, or markup.
fn sized(n: usize, form: usize) -> Vec<u8> {
    match form {
        0 => vec![0; n],
        1 => {
            let mut x = 88172645463325252u64;
            (0..n)
                .map(|_| {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    x as u8
                })
                .collect()
        }
        _ => b"<row r=\"1\"><c><v>12</v></c></row>\n".iter().cycle().take(n).copied().collect(),
    }
}
const SIZES: &[usize] = &[1, 511, 512, 513, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131072, 1048575, 1048576, 1048577];
const BIG: &[usize] = &[2097153, 4194305, 8388609, 16777215, 16777217, 33554433];
/// targets of relationships as a file may spell them: (target, external)
const TARGETS: &[(&str, bool)] = &[
    ("http://x/?a=1&b=<2>\"'", true),
    ("http://x/\u{e9}?q=%20+%2F#a#b", true),
    ("mailto:a@b.example?subject=x%20y&body=z", true),
    ("\\\\server\\share\\a b.docx", true),
    ("file:///C:\\dir\\.\\f.xlsx", true),
    ("../Other/./Book 1.xlsx", true),
    ("./rel.docx", true),
    ("#Sheet2!A1", true),
    (" leading and trailing ", true),
    ("/xl/worksheets/sheet1.xml", true),
    ("worksheets/sheet1.xml", true),
    ("NULL", true),
    ("HTTP://Host.Example/Path/", true),
    ("http://x//a///b", true),
    ("http://x/a;b=c,d|e^f`g{h}", true),
    ("file://localhost/a/../b", true),
];
const TYPES: usize = 4;
const LINKS: usize = 5;
const RELS: usize = 5;

/// Adds part `n` with the given data, content type form, relationship to it and relationships of its own.
fn add(p: &mut Pkg, main: &str, n: &str, bytes: Vec<u8>, ct: usize, link: usize, rels: usize) {
    let ext = n.rsplit_once('.').map(|x| x.1).filter(|e| !e.contains('/')).unwrap_or("");
    let known = p.defaults.iter().any(|d| d.0.eq_ignore_ascii_case(ext));
    match ct {
        0 => drop(p.part(n, Some("application/vnd.custom+thing;a=\"b\""), bytes)),
        1 if !ext.is_empty() && !known => {
            p.def(ext, "application/x-by-default");
            p.part(n, None, bytes);
        }
        2 if !ext.is_empty() && !known => {
            p.def(&ext.to_uppercase(), "application/x-upper");
            p.part(n, None, bytes);
        }
        3 => drop(p.part(n, Some("application/xml"), bytes)),
        _ if known => drop(p.part(n, None, bytes)),
        _ => drop(p.part(n, Some("image/png"), bytes)),
    }
    let ty = "http://example.org/rel/custom";
    match link {
        0 => drop(p.rel("", "rIdQ", ty, n, false)),
        1 => drop(p.rel(main, "rId77", ty, &format!("/{n}"), false)),
        2 => {
            p.part("linker.bin", Some("application/x-linker"), vec![1, 2, 3]);
            p.rel("", "Lk", ty, "/linker.bin", false);
            p.rel("linker.bin", "x1", ty, &format!("./{n}#frag"), false);
        }
        3 => {
            p.rel("", "rIdQ1", ty, n, false);
            p.rel(main, "_q", ty, &format!("/{n}"), false);
        }
        _ => {} // nobody leads to it
    }
    match rels {
        0 => {}
        1 => drop(p.rel(n, "rId1", ty, "http://example.org/?a=1&b=%20#f", true)),
        2 => {
            p.rel(n, "rId1", ty, &format!("/{main}"), false);
            p.rel(n, "rId3", ty, "file:///C:\\x y\\z.docx", true);
            p.rel(n, "a\u{e9}", "urn:t", "mailto:a@b.c?subject=x", true);
        }
        3 => drop(p.rel(n, "rId1", ty, &format!("/{n}"), false)),
        // relationships in a spelling of their own
        _ => drop(p.part(
            &opc::rels_name(n),
            None,
            format!("<?xml version='1.0'?><!-- c --><p:Relationships xmlns:p='{}'>\n <p:Relationship TargetMode='External' Target='http://a/?x=&quot;&#38;' Type='{ty}' Id='q' />\n</p:Relationships>", opc::REL_NS),
        )),
    }
}
fn doc(kind: DocKind) -> (Pkg, &'static str) {
    match kind {
        DocKind::Excel => (books::plain().pkg(), "xl/workbook.xml"),
        DocKind::Word => (fx::doc_pkg(true, Some(fx::CORE)), "word/document.xml"),
        DocKind::Ppt => (fx::doc_pkg(false, Some(fx::CORE)), "ppt/presentation.xml"),
    }
}
/// Opens, saves, opens and saves a document and holds the results against the source.
fn rewrite(kind: DocKind, src: &[u8], sc: &Scratch) -> Out {
    let mut o = Out { transitions: 4, runs: 2, nontrivial: true, ..Default::default() };
    let s = match Package::read(src) {
        Ok(s) => s,
        Err(e) => panic!("harness: fixture: {e}"),
    };
    let mut cur = src.to_vec();
    for round in 1..=2 {
        match resave(kind, Some(&cur), sc) {
            Res::Ok(b) => {
                match Package::read(&b) {
                    Ok(g) => {
                        for p in parts_kept(&s, &g, &|_| false, &[]) {
                            o.bad(format!("save {round}: {p}"));
                        }
                        for p in g.validate(Some(&s)) {
                            o.bad(format!("save {round}: {p}"));
                        }
                        o.states.push(h64(&b));
                    }
                    Err(e) => {
                        o.bad(format!("save {round}: {e}"));
                        break;
                    }
                }
                cur = b;
            }
            r => {
                o.bad(format!("save {round}: {}", r.show()));
                break;
            }
        }
    }
    o.outcome = h64(&cur);
    o
}
fn edits() -> Vec<(&'static str, Vec<Op>)> {
    vec![
        ("nothing", vec![]),
        ("write, style and reopen", vec![Op::On("A", Act::Put(1, 1, vec![txt("new").st(0), num("1")], false)), Op::Reopen, Op::On("B", Act::Nop)]),
        ("add two sheets, delete one", vec![Op::AddDrop(Some("N")), Op::DelName("A"), Op::AddDrop(None), Op::Reopen]),
        ("rename, hide, views", vec![Op::Rename("A", "Z"), Op::Hide("B"), Op::Tabs(false), Op::Reopen, Op::Active("Z")]),
    ]
}

pub fn check(deep: bool) -> Check {
    let mut spaces = vec![];
    let kinds = [DocKind::Excel, DocKind::Word, DocKind::Ppt];
    // one foreign part in every form
    {
        let (nn, nd) = (NAMES.len(), 8);
        let ed = Arc::new(edits());
        let ne = if deep { ed.len() } else { 2 };
        let e2 = ed.clone();
        spaces.push(Space::new(
            "workbook-parts",
            &format!("a workbook with one further part: {nn} names, {nd} kinds of bytes, {TYPES} content type forms, {LINKS} ways to be led to, {RELS} forms of relationships of its own, {ne} edits"),
            (nn * nd * TYPES * LINKS * RELS * ne) as u64,
            move |i| {
                let mut d = Dig(i);
                let (n, b, c, l, r, e) = (d.take(nn), d.take(nd), d.take(TYPES), d.take(LINKS), d.take(RELS), d.take(ne));
                format!("{} bytes {b}, content type {c}, link {l}, relationships {r}; {}", NAMES[n], e2[e].0)
            },
            move |i, sc| {
                let mut d = Dig(i);
                let (n, b, c, l, r, e) = (d.take(nn), d.take(nd), d.take(TYPES), d.take(LINKS), d.take(RELS), d.take(ne));
                let (mut p, main) = doc(DocKind::Excel);
                add(&mut p, main, NAMES[n], data(b), c, l, r);
                Sim::run(Some(&p.zip()), ASPECTS, sc, &ed[e].1)
            },
        ));
    }
    {
        let (nn, nd) = (NAMES.len(), 8);
        let dim = nn * nd * TYPES * LINKS * RELS;
        spaces.push(Space::new(
            "document-parts",
            "the same in a text document and in a presentation, saved twice",
            (dim * 2) as u64,
            move |i| {
                let mut d = Dig(i);
                let (k, n, b, c, l, r) = (d.take(2), d.take(nn), d.take(nd), d.take(TYPES), d.take(LINKS), d.take(RELS));
                format!("{:?}: {} bytes {b}, content type {c}, link {l}, relationships {r}", kinds[k + 1], NAMES[n])
            },
            move |i, sc| {
                let mut d = Dig(i);
                let (k, n, b, c, l, r) = (d.take(2), d.take(nn), d.take(nd), d.take(TYPES), d.take(LINKS), d.take(RELS));
                let (mut p, main) = doc(kinds[k + 1]);
                add(&mut p, main, NAMES[n], data(b), c, l, r);
                rewrite(kinds[k + 1], &p.zip(), sc)
            },
        ));
    }
    // every pair of foreign parts
    {
        let nn = NAMES.len();
        let ed = Arc::new(edits());
        let ne = ed.len();
        let e2 = ed.clone();
        spaces.push(Space::new(
            "pairs",
            &format!("every ordered pair of {nn} part names led to in two ways, {ne} edits, in a workbook"),
            (nn * nn * LINKS * ne) as u64,
            move |i| {
                let mut d = Dig(i);
                let (a, b, l, e) = (d.take(nn), d.take(nn), d.take(LINKS), d.take(ne));
                format!("{} and {}, link {l}; {}", NAMES[a], NAMES[b], e2[e].0)
            },
            move |i, sc| {
                let mut d = Dig(i);
                let (a, b, l, e) = (d.take(nn), d.take(nn), d.take(LINKS), d.take(ne));
                if a == b {
                    return Out { nontrivial: false, ..Default::default() };
                }
                let (mut p, main) = doc(DocKind::Excel);
                add(&mut p, main, NAMES[a], data(0), 1, l, 1);
                p.part(NAMES[b], Some("application/x-second"), data(2));
                let t = format!("/{}", NAMES[b]);
                p.rel(NAMES[a], "rId9", "urn:second", &t, false);
                p.rel("xl/worksheets/sheet2.xml", "rId1", "urn:second", &t, false);
                Sim::run(Some(&p.zip()), ASPECTS, sc, &ed[e].1)
            },
        ));
    }
    // parts of every size at which a buffer may end
    {
        let mut sizes = SIZES.to_vec();
        if deep {
            sizes.extend(BIG);
        }
        let ns = sizes.len();
        let s2 = sizes.clone();
        spaces.push(Space::new(
            "sizes",
            &format!("a further part of {ns} sizes up to {} bytes, of zeros, of bytes without pattern and of markup, led to by every kind of document and saved twice", sizes[ns - 1]),
            (ns * 9) as u64,
            move |i| {
                let mut d = Dig(i);
                let (k, f, n) = (d.take(3), d.take(3), d.take(ns));
                format!("{:?}: {} bytes of form {f}", kinds[k], s2[n])
            },
            move |i, sc| {
                let mut d = Dig(i);
                let (k, f, n) = (d.take(3), d.take(3), d.take(ns));
                let (mut p, main) = doc(kinds[k]);
                add(&mut p, main, "xl/media/big.bin", sized(sizes[n], f), 0, 1, 1);
                rewrite(kinds[k], &p.zip(), sc)
            },
        ));
    }
    // many parts
    {
        let counts: &'static [usize] = if deep { &[10, 99, 100, 255, 256, 257, 1000, 3000] } else { &[10, 99, 100, 255, 256, 257] };
        let nc = counts.len();
        spaces.push(Space::new(
            "many-parts",
            &format!("{counts:?} further parts, in one folder or each in its own, with and without relationships of their own"),
            (nc * 12) as u64,
            move |i| {
                let mut d = Dig(i);
                let (k, f, r, n) = (d.take(3), d.take(2), d.take(2), d.take(nc));
                format!("{:?}: {} parts, form {f}, relationships {r}", kinds[k], counts[n])
            },
            move |i, sc| {
                let mut d = Dig(i);
                let (k, f, r, n) = (d.take(3), d.take(2), d.take(2), d.take(nc));
                let (mut p, main) = doc(kinds[k]);
                for j in 1..=counts[n] {
                    let name = if f == 0 { format!("xl/things/thing{j}.bin") } else { format!("d{j}/{j}/t.b{j}") };
                    p.part(&name, Some(&format!("application/x-thing{}", j % 7)), sized(j, j % 3));
                    p.rel(main, &format!("rIdT{j}"), "urn:thing", &format!("/{name}"), false);
                    if r == 1 {
                        p.rel(&name, "rId1", "urn:to", &format!("http://x/{j}"), true);
                    }
                }
                rewrite(kinds[k], &p.zip(), sc)
            },
        ));
    }
    // relationship targets in every spelling, in every place
    {
        let (nt, places) = (TARGETS.len(), 5);
        let ed = Arc::new(edits());
        let ne = ed.len();
        let e2 = ed.clone();
        let place = |kind: DocKind, w: usize| match (kind, w) {
            (_, 0) => "",
            (DocKind::Excel, 1) => "xl/workbook.xml",
            (DocKind::Word, 1) => "word/document.xml",
            (DocKind::Ppt, 1) => "ppt/presentation.xml",
            (DocKind::Excel, 2) => "xl/worksheets/sheet1.xml",
            (DocKind::Excel, 3) => "xl/worksheets/sheet2.xml",
            _ => "custom.xml",
        };
        let with = move |kind: DocKind, w: usize, t: usize| {
            let (mut p, main) = doc(kind);
            add(&mut p, main, "custom.xml", data(0), 0, 1, 0);
            let (target, ext) = TARGETS[t];
            p.rel(place(kind, w), "rIdT", "http://example.org/rel/target", target, ext);
            p.zip()
        };
        spaces.push(Space::new(
            "targets",
            &format!("{nt} spellings of a relationship target in {places} places of a workbook, {ne} edits, and in text documents and presentations saved twice"),
            (nt * places * (ne + 2)) as u64,
            move |i| {
                let mut d = Dig(i);
                let (t, w, e) = (d.take(nt), d.take(places), d.take(ne + 2));
                format!("{:?} place {w}; {}", TARGETS[t], if e < ne { e2[e].0 } else { ["text document", "presentation"][e - ne] })
            },
            move |i, sc| {
                let mut d = Dig(i);
                let (t, w, e) = (d.take(nt), d.take(places), d.take(ne + 2));
                if e < ne {
                    Sim::run(Some(&with(DocKind::Excel, w, t)), ASPECTS, sc, &ed[e].1)
                } else {
                    rewrite(kinds[e - ne + 1], &with(kinds[e - ne + 1], w, t), sc)
                }
            },
        ));
    }
    // everything a real workbook contains, every sequence of edits
    let ops = vec![
        Op::On("A", Act::Put(2, 5, vec![txt("new").st(0)], false)),
        Op::On("A", Act::Nop),
        Op::On("C", Act::Put(1, 1, vec![num("1")], false)),
        Op::On("B b & <c>", Act::Put(1, 2, vec![num("1")], false)),
        Op::DelName("A"),
        Op::DelName("C"),
        Op::DelName("B b & <c>"),
        Op::AddDrop(Some("N")),
        Op::AddDrop(None),
        Op::Rename("A", "Z"),
        Op::Active("C"),
        Op::V(false),
        Op::Style(3),
        Op::Reopen,
    ];
    let shared = {
        // parts two sheets and the workbook lead to
        let mut w = books::rich();
        let o = books::R_NS;
        w.extra.rel("xl/worksheets/sheet3.xml", "rId2", &format!("{o}/image"), "../media/image1.png", false);
        w.extra.rel("xl/worksheets/sheet2.xml", "rId1", &format!("{o}/drawing"), "../drawings/drawing2.xml", false);
        w.extra.rel("xl/workbook.xml", "rIdTab", &format!("{o}/table"), "tables/table1.xml", false);
        w.zip()
    };
    spaces.push(seq_space("rich", "every sequence of edits in a workbook with parts and relationships of all kinds", vec![("rich", Some(books::rich().zip())), ("parts in common", Some(shared))], ops, if deep { 4 } else { 3 }, ASPECTS));
    // the package itself spelled in every way
    let form_ops = vec![
        Op::On("A", Act::Put(1, 3, vec![txt("brand new").st(1)], false)),
        Op::AddDrop(None),
        Op::DelName("B"),
        Op::Reopen,
    ];
    let f = c01::forms();
    spaces.push(seq_space("package-forms", "every sequence of edits in packages spelled in unusual ways", f.iter().filter(|(n, _)| !["stray shared strings, no table", "stray styles, no styles", "stray core properties, none declared", "stray relationships"].contains(n)).map(|(n, b)| (*n, Some(b.clone()))).collect(), form_ops, if deep { 5 } else { 4 }, ASPECTS));
    spaces.push(super::archive::space());
    Check {
        id: "C02",
        level: "model_checking",
        rule: "a case is a package with a chosen set of foreign parts and a sequence of edits; after every save each part the library does not interpret is compared byte by byte, with its content type and its relationships, by an independent package reader; distinct by source and sequence",
        assumptions: vec!["workbook, styles, shared strings, calculation chain, theme and core properties are parts the library interprets", "parts only a deleted sheet led to may go"],
        spaces,
    }
}
