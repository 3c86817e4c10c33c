use super::common::*;
use crate::books;
use crate::sim::*;

const ASPECTS: u32 = A_OPC | A_STR | A_NAMES | A_RES;

/// Moves a part: its name, its content type, its relationships and all that lead to it.
pub fn move_part(p: &mut Pkg, from: &str, to: &str) {
    for (n, _) in p.parts.iter_mut() {
        if n == from {
            *n = to.into();
        }
    }
    for (n, _) in p.overrides.iter_mut() {
        if n.trim_start_matches('/') == from {
            *n = format!("/{to}");
        }
    }
    for (s, rs) in p.rels.iter_mut() {
        for r in rs.iter_mut() {
            if r.3 {
                continue;
            }
            let t = opc::resolve(s, &r.2);
            // spelled from the root, so that moving the source does no harm
            r.2 = format!("/{}", if t == from { to } else { &t });
        }
        if s == from {
            *s = to.into();
        }
    }
}
/// Spells every internal target in one way: 0 relative, 1 absolute, 2 with dots, 3 up to the root and down again.
pub fn spell_targets(p: &mut Pkg, how: usize) {
    for (s, rs) in p.rels.iter_mut() {
        let dir: Vec<&str> = s.split('/').collect();
        let dir = &dir[..dir.len() - 1];
        for r in rs.iter_mut().filter(|r| !r.3) {
            let t = opc::resolve(s, &r.2);
            let up = "../".repeat(dir.len());
            let pre = if dir.is_empty() { String::new() } else { format!("{}/", dir.join("/")) };
            r.2 = match how {
                0 => t.strip_prefix(&pre).map(|x| x.to_string()).unwrap_or(format!("{up}{t}")),
                1 => format!("/{t}"),
                2 => format!("./{}", t.strip_prefix(&pre).map(|x| x.to_string()).unwrap_or(format!("{up}{t}"))),
                _ => format!("{up}{t}"),
            };
        }
    }
}
/// Packages that say the same thing in unusual ways.
/// Ids, names and references of which one begins or ends with, or holds, another.
fn alike_ids(longer_first: bool) -> Vec<u8> {
    let mut w = fx::Wb::new(&["A", "B", "C", "D"]);
    let ids = if longer_first { ["11", "1", "111", "21"] } else { ["1", "11", "21", "111"] };
    let rids = if longer_first { ["rId11", "rId1", "RID1", "arId1"] } else { ["rId1", "rId11", "arId1", "RID1"] };
    let parts = if longer_first { ["xl/worksheets/sheet11.xml", "xl/worksheets/sheet1.xml", "xl/worksheets/sheet111.xml", "sheet1.xml"] } else { ["xl/worksheets/sheet1.xml", "xl/worksheets/sheet11.xml", "xl/sheet1.xml", "xl/worksheets/asheet1.xml"] };
    let mut chain = String::new();
    for (i, s) in w.sheets.iter_mut().enumerate() {
        s.1 = format!("sheetId=\"{}\"", ids[i]);
        let f = |r: &str| format!("<c r=\"{r}\"><f>{i}</f><v>{i}</v></c>");
        s.2 = fx::sheet(&format!("<sheetData><row r=\"1\">{}{}{}</row><row r=\"2\">{}</row><row r=\"11\">{}{}</row><row r=\"111\">{}</row></sheetData><pageMargins left=\"{i}\" right=\"1\" top=\"1\" bottom=\"1\" header=\"1\" footer=\"1\"/>", f("A1"), f("C1"), f("AA1"), f("A2"), f("A11"), f("AA11"), f("A111")));
        for r in ["A111", "AA11", "A11", "AA1", "A1", "C1", "A2"] {
            chain.push_str(&format!("<c r=\"{r}\" i=\"{}\"/>", ids[i]));
        }
    }
    w.sst = Some(books::sst_rich());
    w.calc = Some(format!("{}<calcChain xmlns=\"{}\">{chain}</calcChain>", fx::DECL, fx::X));
    // relationships of other types that end alike, ahead of the real ones
    for (k, t) in ["styles", "sharedStrings", "calcChain", "theme", "worksheet"].iter().enumerate() {
        w.extra.part(&format!("custom/{t}.xml"), None, format!("<not-what-it-seems n=\"{k}\"/>"));
    }
    let mut p = w.pkg();
    for (i, n) in parts.iter().enumerate() {
        move_part(&mut p, &format!("xl/worksheets/sheet{}.xml", i + 1), &format!("tmp{i}.xml"));
        let _ = n;
    }
    for (i, n) in parts.iter().enumerate() {
        move_part(&mut p, &format!("tmp{i}.xml"), n);
    }
    let wb = p.parts.iter_mut().find(|x| x.0 == "xl/workbook.xml").expect("fixture");
    let mut t = String::from_utf8_lossy(&wb.1).into_owned();
    for i in 0..4 {
        t = t.replace(&format!("r:id=\"rId{}\"", i + 1), &format!("r:id=\"-{i}-\""));
    }
    for (i, n) in rids.iter().enumerate() {
        t = t.replace(&format!("-{i}-"), n);
    }
    wb.1 = t.into_bytes();
    let rels = &mut p.rels.iter_mut().find(|r| r.0 == "xl/workbook.xml").expect("fixture").1;
    for r in rels.iter_mut() {
        if let Some(i) = r.0.strip_prefix("rId").and_then(|n| n.parse::<usize>().ok()).filter(|n| *n <= 4) {
            r.0 = rids[i - 1].into();
        } else {
            r.0 = format!("z{}", r.0);
        }
    }
    for (k, t) in ["styles", "sharedStrings", "calcChain", "theme", "worksheet"].iter().enumerate() {
        rels.insert(0, (format!("f{k}"), format!("http://example.org/2026/relationships/{t}"), format!("../custom/{t}.xml"), false));
    }
    p.zip()
}
pub fn forms() -> Vec<(&'static str, Vec<u8>)> {
    let base = || {
        let mut w = books::plain();
        w.extra.part("xl/theme/theme1.xml", Some(fx::CT_THEME), "<a:theme xmlns:a=\"http://schemas.openxmlformats.org/drawingml/2006/main\" name=\"t\"/>");
        w.extra.rel("xl/workbook.xml", "rIdT", opc::R_THEME, "theme/theme1.xml", false);
        w
    };
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![];
    for (i, n) in ["relative targets", "absolute targets", "dotted targets", "targets by way of the root"].iter().enumerate() {
        let mut p = base().pkg();
        spell_targets(&mut p, i);
        v.push((n, p.zip()));
    }
    let moved = |list: &[(&str, &str)]| {
        let mut p = base().pkg();
        for (a, b) in list {
            move_part(&mut p, a, b);
        }
        p.zip()
    };
    v.push(("workbook in the root", moved(&[("xl/workbook.xml", "workbook.xml")])));
    v.push(("workbook of another name", moved(&[("xl/workbook.xml", "a/b/c.d.xml")])));
    v.push(("workbook without extension", moved(&[("xl/workbook.xml", "xl/book")])));
    v.push(("sheets elsewhere", moved(&[("xl/worksheets/sheet1.xml", "s/One.xml"), ("xl/worksheets/sheet2.xml", "two.xml")])));
    v.push(("sheets with escaped names", moved(&[("xl/worksheets/sheet1.xml", "xl/worksheets/my%20sheet.xml"), ("xl/worksheets/sheet2.xml", "xl/worksheets/b%5B2%5D.xml")])));
    v.push(("sheets in upper case", moved(&[("xl/worksheets/sheet1.xml", "xl/worksheets/SHEET1.XML"), ("xl/worksheets/sheet2.xml", "XL/worksheets/Sheet3.xml")])));
    v.push(("tables of other names", moved(&[("xl/sharedStrings.xml", "xl/strings.xml"), ("xl/styles.xml", "xl/Styles1.xml"), ("xl/calcChain.xml", "c.xml"), ("xl/theme/theme1.xml", "xl/theme/theme2.xml")])));
    v.push(("core properties of another name", moved(&[("docProps/core.xml", "package/services/metadata/core-properties/aa.psmdcp")])));
    let mut w = base();
    for (i, t) in ["worksheets/sheet1.xml", "worksheets/sheet2.xml", "/xl/worksheets/sheet3.xml", "calcChain.xml", "sharedStrings.xml"].iter().enumerate() {
        w.extra.rel("xl/workbook.xml", &format!("rX{i}"), &format!("{}/hyperlink", books::R_NS), t, true);
    }
    v.push(("external targets spelled like parts", w.zip()));
    v.push(("ids alike, longer first", alike_ids(true)));
    v.push(("ids alike, shorter first", alike_ids(false)));
    // relationship ids of sheets under another prefix, beside attributes whose names end alike
    for (name, from, to) in [
        ("sheet ids beside names alike", "xmlns:r=", "xmlns:rel="),
        ("sheet ids under another prefix", "xmlns:r=", "xmlns:r=\"urn:z\" xmlns:zz="),
        ("sheet ids under a prefix of their own", "xmlns:r=", "xmlns:own="),
    ] {
        let mut p = base().pkg();
        let wb = p.parts.iter_mut().find(|x| x.0 == "xl/workbook.xml").expect("fixture");
        let t = String::from_utf8_lossy(&wb.1).replace(from, to);
        wb.1 = match name {
            "sheet ids beside names alike" => t.replace("rId1\"/>", "rId1\" a:id=\"rId2\" z:id=\"rId3\"/>").replace("rId2\"/>", "rId2\" a:id=\"rId1\"/>").replace(" r:id=", " rel:id=").replacen("<workbook ", "<workbook xmlns:a=\"urn:a\" xmlns:z=\"urn:z\" ", 1),
            "sheet ids under another prefix" => t.replace(" r:id=", " r:id=\"rId2\" zz:id="),
            _ => t.replace(" r:id=", &format!(" xmlns:q=\"{}\" xmlns:b=\"urn:b\" b:id=\"rId3\" q:id=", fx::R)),
        }
        .into_bytes();
        v.push((name, p.zip()));
    }
    // content types
    let types = |f: &dyn Fn(&mut Pkg)| {
        let mut p = base().pkg();
        f(&mut p);
        p.zip()
    };
    v.push(("default in upper case", types(&|p| p.defaults[1].0 = "XML".into())));
    v.push(("no default for xml", types(&|p| drop(p.defaults.remove(1)))));
    v.push(("overrides for relationships", types(&|p| {
        p.defaults.clear();
        for s in p.rels.iter().map(|r| opc::rels_name(&r.0)).collect::<Vec<_>>() {
            p.overrides.push((format!("/{s}"), opc::RELS_CT.into()));
        }
    })));
    v.push(("default is the worksheet type", types(&|p| {
        p.defaults[1].1 = fx::CT_WS.into();
        p.overrides.retain(|o| o.1 != fx::CT_WS);
    })));
    v.push(("overrides in another case", types(&|p| {
        for o in p.overrides.iter_mut() {
            o.0 = o.0.replace("/xl/worksheets", "/XL/Worksheets");
        }
    })));
    // parts nobody leads to, where the library would put its own
    for (n, part, ct) in [
        ("stray sheet part", "xl/worksheets/sheet3.xml", Some(fx::CT_WS)),
        ("stray sheet part in upper case", "xl/worksheets/SHEET3.XML", Some("application/x")),
        ("stray theme", "xl/theme/theme2.xml", Some(fx::CT_THEME)),
        ("stray relationships", "xl/worksheets/_rels/sheet3.xml.rels", None),
    ] {
        let mut w = base();
        let data = if part.ends_with(".rels") { format!("<Relationships xmlns=\"{}\"/>", opc::REL_NS) } else { "<stray/>".to_string() };
        w.extra.part(part, ct, data);
        v.push((n, w.zip()));
    }
    for (n, f) in [
        ("stray shared strings, no table", &(|w: &mut Wb| {
            w.sst = None;
            w.sheets[0].2 = fx::sheet("<sheetData/>");
            w.sheets[1].2 = fx::sheet("<sheetData/>");
            w.calc = None;
            w.extra.part("xl/sharedStrings.xml", Some(fx::CT_SST), fx::sst("<si><t>stray</t></si>"));
        }) as &dyn Fn(&mut Wb)),
        ("stray styles, no styles", &|w| {
            w.styles = None;
            w.extra.part("xl/styles.xml", Some(fx::CT_STY), fx::STYLES);
        }),
        ("stray core properties, none declared", &|w| {
            w.core = None;
            w.extra.part("docProps/core.xml", Some(fx::CT_CORE), fx::CORE);
        }),
        ("nothing but the workbook", &|w| {
            w.core = None;
            w.styles = None;
            w.sst = None;
            w.calc = None;
            w.sheets[0].2 = fx::sheet("<sheetData/>");
            w.sheets[1].2 = fx::sheet("<sheetData/>");
        }),
    ] {
        let mut w = base();
        f(&mut w);
        v.push((n, w.zip()));
    }
    v
}
fn histories() -> Vec<Op> {
    let on = |n: &'static str, v: Vec<CS>| Op::On(n, Act::Put(1, 1, v, false));
    vec![
        Op::AddDrop(Some("N")),
        Op::AddDrop(None),
        Op::DelName("A"),
        Op::DelName("B"),
        Op::DelName("N"),
        on("A", vec![num("1"), txt("brand new"), fml("1").st(1)]),
        on("B", vec![none(), none(), none()]),
        on("N", vec![txt("<&>\"'").st(2)]),
        Op::On("A", Act::BadRef("1A")),
        Op::Rename("A", "R & <\"'>"),
        Op::Active("B"),
        Op::Tabs(false),
        Op::Style(0),
        Op::Reopen,
    ]
}

pub fn check(deep: bool) -> Check {
    let mut spaces = vec![];
    let std_src = || -> Sources { vec![("new", None), ("plain", Some(books::plain().zip()))] };
    spaces.push(seq_space("histories", "every sequence of calls of all kinds", std_src(), histories(), if deep { 4 } else { 3 }, ASPECTS));
    spaces.push(seq_space(
        "handles",
        "every sequence of opening, deleting, releasing sheets and saving, also with handles out",
        std_src(),
        vec![
            Op::Get(0, "A"),
            Op::Add(0, Some("A")),
            Op::Add(1, None),
            Op::Get(1, "B"),
            Op::Drop(0),
            Op::Del(0),
            Op::Del(1),
            Op::Do(0, Act::Put(1, 1, vec![num("1"), txt("t")], false)),
            Op::DelName("B"),
            Op::Reopen,
            Op::SaveOut,
        ],
        if deep { 6 } else { 5 },
        ASPECTS,
    ));
    let rich_ops = vec![
        Op::DelName("A"),
        Op::DelName("B b & <c>"),
        Op::DelName("C"),
        Op::AddDrop(Some("N")),
        Op::AddDrop(None),
        Op::On("A", Act::Put(9, 1, vec![txt("n"), num("1"), none().st(0)], false)),
        Op::On("C", Act::Nop),
        Op::Rename("C", "D"),
        Op::Reopen,
    ];
    spaces.push(seq_space("rich", "sheets with relationships of their own deleted and added", vec![("rich", Some(books::rich().zip()))], rich_ops, if deep { 5 } else { 4 }, ASPECTS));
    let form_ops = vec![
        Op::AddDrop(Some("N")),
        Op::AddDrop(None),
        Op::DelName("A"),
        Op::DelName("B"),
        Op::On("A", Act::Put(1, 3, vec![txt("brand new").st(1), num("1")], false)),
        Op::On("B", Act::Put(2, 3, vec![num("1")], false)),
        Op::Reopen,
    ];
    let f = forms();
    spaces.push(seq_space(
        "package-forms",
        "every sequence of calls from packages spelled in unusual ways: targets, part names, content types, stray parts",
        f.iter().map(|(n, b)| (*n, Some(b.clone()))).collect(),
        form_ops,
        if deep { 4 } else { 3 },
        ASPECTS,
    ));
    // part names in use
    {
        let seqs: std::sync::Arc<Vec<Vec<Op>>> = std::sync::Arc::new(vec![
            vec![],
            vec![Op::AddDrop(Some("N")), Op::AddDrop(Some("M"))],
            vec![Op::DelName("A"), Op::AddDrop(Some("N")), Op::AddDrop(Some("M"))],
            vec![Op::Get(0, "B"), Op::AddDrop(Some("N")), Op::Drop(0), Op::AddDrop(Some("M"))],
            vec![Op::Add(0, Some("N")), Op::DelName("A"), Op::Add(1, Some("M")), Op::Del(0), Op::AddDrop(Some("O"))],
            vec![Op::AddDrop(Some("N")), Op::Reopen, Op::DelName("B"), Op::AddDrop(Some("M")), Op::Reopen, Op::DelName("N")],
        ]);
        let n = seqs.len();
        let names = ["sheet1.xml", "sheet2.xml", "sheet3.xml", "Sheet2.xml", "SHEET1.XML", "sheet10.xml", "sheet02.xml"];
        let k = names.len();
        let s2 = seqs.clone();
        spaces.push(Space::new(
            "part-names",
            &format!("two sheets and a stray part under every choice of {k} part names, {n} call sequences"),
            (k * k * (k + 1) * n) as u64,
            move |i| {
                let mut d = Dig(i);
                let (a, b, c) = (d.take(k), d.take(k), d.take(k + 1));
                format!("A in {}, B in {}, stray {:?}: {:?}", names[a], names[b], names.get(c), s2[d.0 as usize])
            },
            move |i, sc| {
                let mut d = Dig(i);
                let (a, b, c) = (d.take(k), d.take(k), d.take(k + 1));
                let lower = |x: usize| names[x].to_ascii_lowercase();
                if lower(a) == lower(b) || (c < k && (lower(c) == lower(a) || lower(c) == lower(b))) {
                    return Out { nontrivial: false, ..Default::default() };
                }
                let mut w = Wb::new(&["A", "B"]);
                if c < k {
                    w.extra.part(&format!("xl/worksheets/{}", names[c]), Some("application/x"), "stray");
                }
                let mut p = w.pkg();
                // by way of names that collide with none
                let to = |p: &mut Pkg, from: &str, n: &str| {
                    let f = format!("xl/worksheets/{from}");
                    move_first(p, &f, n)
                };
                to(&mut p, "sheet1.xml", "xl/worksheets/ta");
                to(&mut p, "sheet2.xml", "xl/worksheets/tb");
                to(&mut p, "ta", &format!("xl/worksheets/{}", names[a]));
                to(&mut p, "tb", &format!("xl/worksheets/{}", names[b]));
                Sim::run(Some(&p.zip()), ASPECTS, sc, &seqs[d.0 as usize])
            },
        ));
    }
    // relationship ids in use
    {
        const IDS: &[&str] = &["rId1", "rId2", "rId3", "rId4", "rId03", "rid5", "RID6", "R7", "_a", "rId", "rId4294967296", "rId2147483647", "rId-1", "rId99999999999999999999"];
        let k = IDS.len();
        let seqs: std::sync::Arc<Vec<Vec<Op>>> = std::sync::Arc::new(vec![
            vec![Op::AddDrop(Some("N")), Op::AddDrop(Some("M")), Op::Reopen, Op::AddDrop(Some("O"))],
            vec![Op::DelName("A"), Op::AddDrop(Some("N")), Op::On("N", Act::Put(1, 1, vec![txt("t").st(0)], false)), Op::Reopen, Op::DelName("B"), Op::AddDrop(None)],
        ]);
        let n = seqs.len();
        let s2 = seqs.clone();
        spaces.push(Space::new(
            "relationship-ids",
            &format!("three relationships of the workbook with every choice of {k} ids, {n} call sequences"),
            (k * k * k * n) as u64,
            move |i| {
                let mut d = Dig(i);
                let (a, b, c) = (d.take(k), d.take(k), d.take(k));
                format!("{}, {}, {}: {:?}", IDS[a], IDS[b], IDS[c], s2[d.0 as usize])
            },
            move |i, sc| {
                let mut d = Dig(i);
                let (a, b, c) = (d.take(k), d.take(k), d.take(k));
                if a == b || b == c || a == c {
                    return Out { nontrivial: false, ..Default::default() };
                }
                let w = Wb::new(&["A", "B"]);
                let mut p = w.pkg();
                let map = [("rId1", IDS[a]), ("rId2", IDS[b]), ("rId3", IDS[c])];
                for (s, rs) in p.rels.iter_mut() {
                    if s == "xl/workbook.xml" {
                        for r in rs.iter_mut() {
                            if let Some(m) = map.iter().find(|m| m.0 == r.0) {
                                r.0 = m.1.into();
                            }
                        }
                    }
                }
                for (n, data) in p.parts.iter_mut() {
                    if n == "xl/workbook.xml" {
                        let t = String::from_utf8(data.clone()).unwrap();
                        *data = t.replace("r:id=\"rId1\"", "r:id=\"@1\"").replace("r:id=\"rId2\"", "r:id=\"@2\"").replace("@1", IDS[a]).replace("@2", IDS[b]).into_bytes();
                    }
                }
                Sim::run(Some(&p.zip()), ASPECTS, sc, &seqs[d.0 as usize])
            },
        ));
    }
    // documents made from nothing
    {
        let kinds = [("workbook", DocKind::Excel), ("text document", DocKind::Word), ("presentation", DocKind::Ppt)];
        spaces.push(Space::new(
            "new-documents",
            "a new document of each format saved, opened and saved again",
            3,
            move |i| format!("new {}", kinds[i as usize].0),
            move |i, sc| {
                let (name, kind) = kinds[i as usize];
                let mut o = Out { transitions: 2, runs: 2, ..Default::default() };
                let mut src: Option<Vec<u8>> = None;
                for round in 0..2 {
                    match resave(kind, src.as_deref(), sc) {
                        Res::Ok(b) => {
                            match Package::read(&b) {
                                Err(e) => o.bad(format!("save {round}: {e}")),
                                Ok(p) => {
                                    for x in p.validate(None) {
                                        o.bad(format!("save {round}: {x}"));
                                    }
                                    o.states.push(h64(&b));
                                    match p.rel_target("", opc::R_DOC) {
                                        None => o.bad(format!("a new {name} has no main part")),
                                        Some(t) if !p.parts.contains_key(&t) => o.bad(format!("main part {t} of a new {name} is not there")),
                                        Some(t) => {
                                            let want = match kind {
                                                DocKind::Excel => fx::CT_WB,
                                                DocKind::Word => "application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml",
                                                DocKind::Ppt => "application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml",
                                            };
                                            if p.content_type(&t) != Some(want) {
                                                o.bad(format!("main part of a new {name} has content type {:?}", p.content_type(&t)));
                                            }
                                        }
                                    }
                                    if p.rel_target("", opc::R_CORE).is_none() {
                                        o.bad(format!("a new {name} has no core properties"));
                                    }
                                }
                            }
                            src = Some(b);
                        }
                        r => {
                            if round == 0 || !matches!(kind, DocKind::Word | DocKind::Ppt) {
                                o.bad(format!("save {round} of a new {name}: {}", r.show()));
                            }
                            break;
                        }
                    }
                }
                o
            },
        ));
    }
    spaces.push(super::strict::space(deep));
    Check {
        id: "C01",
        level: "model_checking",
        rule: "a case is a source package and a sequence of calls; every successful save is read by an independent package reader and held against the rules of the Open Packaging Conventions and the references a workbook makes by relationship; distinct by source and sequence",
        assumptions: vec!["faults the source package already has (unreachable parts, dangling relationships, undeclared parts) may stay", "parts only a deleted sheet led to may stay behind", "a part nobody leads to, under the very name the library gives its own tables, is of their kind"],
        spaces,
    }
}
fn move_first(p: &mut Pkg, from: &str, to: &str) {
    // the stray part may carry the same name: only what a relationship leads to moves
    let i = p.parts.iter().position(|(n, d)| n == from && d != b"stray").unwrap_or_else(|| panic!("harness: no {from}"));
    p.parts[i].0 = to.into();
    if let Some(o) = p.overrides.iter_mut().find(|(n, c)| n.trim_start_matches('/') == from && c != "application/x") {
        o.0 = format!("/{to}");
    }
    for (s, rs) in p.rels.iter_mut() {
        for r in rs.iter_mut().filter(|r| !r.3) {
            if opc::resolve(s, &r.2) == from {
                r.2 = format!("/{to}");
            }
        }
    }
}
