use super::common::*;
use crate::books;
use crate::sim::*;

const ASPECTS: u32 = A_NAMES | A_STATE | A_GRID | A_RES | A_STR | A_OPC;

/// Sheets whose names and part names invite collisions: sheet2.xml holds "Sheet1", a gap in the
/// numbering, names that differ from automatic ones only in case.
pub fn tricky() -> Vec<u8> {
    let mut p = Wb::new(&["SHEET3", "Sheet1", "A"]);
    p.sheets[0].2 = fx::sheet("<sheetData><row r=\"1\"><c r=\"A1\"><v>31</v></c></row></sheetData>");
    p.sheets[1].2 = fx::sheet("<sheetData><row r=\"1\"><c r=\"A1\"><v>11</v></c></row></sheetData>");
    p.sheets[2].1 = "sheetId=\"7\" state=\"hidden\"".into();
    p.views = "<bookViews><workbookView activeTab=\"1\" firstSheet=\"1\"/></bookViews>".into();
    let mut k = p.pkg();
    // the third sheet lives in sheet4.xml, and Sheet5.xml of another case exists as well
    for (n, _) in k.parts.iter_mut() {
        if n == "xl/worksheets/sheet3.xml" {
            *n = "xl/worksheets/Sheet5.xml".into();
        }
    }
    for (n, _) in k.overrides.iter_mut() {
        if n == "/xl/worksheets/sheet3.xml" {
            *n = "/xl/worksheets/Sheet5.xml".into();
        }
    }
    for (_, v) in k.rels.iter_mut() {
        for r in v.iter_mut() {
            if r.2 == "worksheets/sheet3.xml" {
                r.2 = "worksheets/Sheet5.xml".into();
            }
        }
    }
    k.zip()
}
fn put(v: &'static str) -> Act {
    Act::Put(1, 1, vec![num(v)], false)
}
pub fn check(deep: bool) -> Check {
    let full = vec![
        Op::AddDrop(None),
        Op::AddDrop(Some("N")),
        Op::AddDrop(Some("A")),
        Op::At(0, put("100")),
        Op::At(2, put("300")),
        Op::DelName("A"),
        Op::DelName("B"),
        Op::Rename("A", "B"),
        Op::Rename("A", "N"),
        Op::Rename("B", "A"),
        Op::Rename("zz", "M"),
        Op::Hide("A"),
        Op::Hide("zz"),
        Op::Active("B"),
        Op::Active("zz"),
        Op::Get(0, "zz"),
        Op::Reopen,
    ];
    let life = vec![
        Op::AddDrop(None),
        Op::Get(0, "A"),
        Op::Add(1, Some("N")),
        Op::Do(0, put("1")),
        Op::Do(1, put("2")),
        Op::Del(0),
        Op::Del(1),
        Op::Rename("A", "Q"),
        Op::Active("N"),
        Op::Hide("N"),
        Op::Reopen,
    ];
    let names = vec![
        Op::AddDrop(None),
        Op::AddDrop(Some("Sheet4")),
        Op::DelName("Sheet1"),
        Op::DelName("SHEET3"),
        Op::Rename("Sheet1", "Sheet2"),
        Op::Rename("A", "Sheet6"),
        Op::At(0, put("5")),
        Op::Active("A"),
        Op::Reopen,
    ];
    let plain = || ("plain", Some(books::plain().zip()));
    let abs = || {
        let mut w = books::plain();
        w.abs_targets = true;
        w.views = String::new();
        ("absolute targets, no views", Some(w.zip()))
    };
    let mut spaces = vec![
        seq_space("management", "every sequence of sheet management calls", vec![plain(), abs()], full, if deep { 4 } else { 3 }, ASPECTS),
        seq_space("handles", "every sequence of management calls with handles kept", vec![plain(), ("new", None)], life, if deep { 6 } else { 4 }, ASPECTS),
        seq_space("naming", "every sequence over names and part names that invite collisions", vec![("tricky", Some(tricky())), ("new", None)], names, if deep { 5 } else { 4 }, ASPECTS),
        seq_space(
            "rich",
            "sheet management in a workbook with hidden and very hidden sheets, ids out of order, two views and local names",
            vec![("rich", Some(books::rich().zip()))],
            vec![
                Op::DelName("A"),
                Op::DelName("B b & <c>"),
                Op::DelName("C"),
                Op::Hide("A"),
                Op::Hide("C"),
                Op::Active("C"),
                Op::Active("A"),
                Op::Rename("B b & <c>", " & "),
                Op::AddDrop(Some("<n>")),
                Op::At(1, put("8")),
                Op::Reopen,
            ],
            if deep { 4 } else { 3 },
            ASPECTS | A_REST | A_WB | A_ROWS | A_COLS,
        ),
    ];
    // names that begin, end or differ only in case alike
    const ALIKE: &[&str] = &["Data 2", "Data", "data ", "My Data", "Dat", "Data!"];
    let mut ops = vec![];
    for n in &ALIKE[..5] {
        ops.extend([Op::DelName(n), Op::Rename(n, "Fresh"), Op::Hide(n), Op::Active(n), Op::On(n, put("7"))]);
    }
    ops.extend([Op::Rename("Fresh", "Data"), Op::Rename("Data", "Da"), Op::AddDrop(Some("Da")), Op::AddDrop(Some("Data")), Op::Get(0, "Da"), Op::Reopen]);
    let alike = |rev: bool| {
        let mut n = ALIKE.to_vec();
        if rev {
            n.reverse();
        }
        let mut w = Wb::new(&n);
        for (i, s) in w.sheets.iter_mut().enumerate() {
            s.2 = fx::sheet(&format!("<sheetData><row r=\"1\"><c r=\"A1\"><v>{i}</v></c></row></sheetData>"));
        }
        w.zip()
    };
    spaces.push(seq_space("alike", "every sequence of sheet management calls on names that begin or end alike", vec![("longer first", Some(alike(false))), ("shorter first", Some(alike(true)))], ops, if deep { 3 } else { 2 }, ASPECTS));
    spaces.extend(super::scale::sheets(deep, ASPECTS));
    spaces.push(super::forms::space(deep, ASPECTS));
    Check {
        id: "C07",
        level: "model_checking",
        rule: "a case is a sequence of sheet management calls from a source workbook, run on an ordered list of sheets and on the library in lockstep; names are compared after every call and names, order, ids, visibility, active sheet and content after every save; distinct by sequence",
        assumptions: vec![
            "getting an unknown sheet may create it or fail without effect; adding an existing name may return the sheet or fail without effect",
            "after the active sheet is deleted any existing sheet may be active",
        ],
        spaces,
    }
}
