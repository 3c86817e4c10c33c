use super::common::*;
use crate::books;
use crate::sim::*;

/// calculation chain forms: ids repeated or inherited, attributes, sheet ids unlike positions
fn chain(i: usize) -> Vec<u8> {
    let mut w = Wb::new(&["A", "B", "C"]);
    w.sheets[0].1 = "sheetId=\"4\"".into();
    w.sheets[1].1 = "sheetId=\"1\"".into();
    w.sheets[2].1 = "sheetId=\"2\"".into();
    w.sheets[0].2 = fx::sheet("<sheetData><row r=\"1\"><c r=\"A1\"><f>1</f><v>1</v></c><c r=\"B1\"><f>2</f><v>2</v></c></row><row r=\"2\"><c r=\"A2\"><f t=\"array\" ref=\"A2:B2\">A1:B1</f><v>1</v></c><c r=\"B2\"><v>2</v></c></row></sheetData>");
    w.sheets[1].2 = fx::sheet("<sheetData><row r=\"1\"><c r=\"A1\"><f>3</f><v>3</v></c></row></sheetData>");
    w.sheets[2].2 = fx::sheet("<sheetData><row r=\"1\"><c r=\"A1\"><f>4</f><v>4</v></c></row></sheetData>");
    let items = [
        "<c r=\"A1\" i=\"4\"/><c r=\"B1\" i=\"4\" l=\"1\"/><c r=\"A2\" i=\"4\" a=\"1\"/><c r=\"A1\" i=\"1\" s=\"1\"/><c r=\"A1\" i=\"2\" t=\"1\"/>",
        "<c r=\"A1\" i=\"4\"/><c r=\"B1\"/><c r=\"A2\" a=\"1\"/><c r=\"A1\" i=\"1\"/><c r=\"A1\" i=\"2\"/>",
        "<c r=\"A1\" i=\"2\"/><c r=\"A1\" i=\"1\"/><c r=\"A1\" i=\"4\"/><c r=\"B1\" s=\"1\" l=\"1\"/>",
        "<c r=\"A1\" i=\"1\"/>",
    ][i];
    w.calc = Some(format!("{}<calcChain xmlns=\"{}\">{items}</calcChain>", fx::DECL, wb::X));
    w.zip()
}
pub fn check(deep: bool) -> Check {
    const ASPECTS: u32 = A_CALC | A_STR | A_RES | A_OPC;
    let on = |n: &'static str, r: u32, c: u32, v: Vec<CS>| Op::On(n, Act::Put(r, c, v, false));
    let ops = vec![
        on("A", 1, 1, vec![num("5")]),
        on("A", 1, 1, vec![none(), none()]),
        on("A", 1, 2, vec![fml("9")]),
        on("A", 2, 1, vec![txt("t")]),
        on("B", 1, 1, vec![num("6"), fml("A1")]),
        on("C", 1, 1, vec![none().st(0)]),
        Op::On("A", Act::BadCells(1, 1, vec![num("1"), num("bad")])),
        Op::On("A", Act::Nop),
        Op::On("A", Act::Row(1, RS { hidden: Some(true), ..Default::default() })),
        Op::DelName("A"),
        Op::DelName("B"),
        Op::DelName("C"),
        Op::AddDrop(Some("D")),
        on("D", 1, 1, vec![fml("7")]),
        Op::Rename("B", "E"),
        Op::Reopen,
    ];
    let held = vec![
        Op::Get(0, "A"),
        Op::Get(1, "B"),
        Op::Do(0, Act::Put(1, 1, vec![num("5")], true)),
        Op::Do(0, Act::Put(1, 1, vec![fml("5")], true)),
        Op::Do(1, Act::Put(1, 1, vec![num("5")], true)),
        Op::Del(0),
        Op::Del(1),
        Op::Drop(0),
        Op::Rename("A", "F"),
        Op::AddDrop(None),
        Op::Reopen,
    ];
    let chains = || -> Sources { vec![("ids repeated", Some(chain(0))), ("ids inherited", Some(chain(1))), ("ids out of order", Some(chain(2))), ("one entry", Some(chain(3)))] };
    let rich = vec![
        on("A", 2, 1, vec![num("1"), num("2"), num("3")]),
        on("A", 9, 1, vec![fml("1"), none(), cs("x", CellDataType::String)]),
        on("A", 4, 1, vec![num("1")]),
        Op::On("B b & <c>", Act::Put(1, 2, vec![num("0")], true)),
        Op::DelName("A"),
        Op::DelName("B b & <c>"),
        Op::AddDrop(Some("A")),
        on("C", 1, 1, vec![fml("2")]),
        Op::Reopen,
    ];
    let mut spaces = vec![
        seq_space("chains", "every sequence of overwriting formulas, deleting and adding sheets", chains(), ops, if deep { 4 } else { 3 }, ASPECTS),
        seq_space("handles", "the same through held handles", chains(), held, if deep { 6 } else { 4 }, ASPECTS),
        seq_space("rich", "the same in a workbook with shared and array formulas", vec![("rich", Some(books::rich().zip())), ("plain", Some(books::plain().zip()))], rich, if deep { 5 } else { 4 }, ASPECTS),
    ];
    spaces.extend(super::scale::chains(deep, ASPECTS));
    spaces.push(super::forms::space(deep, ASPECTS));
    Check {
        id: "C16",
        level: "model_checking",
        rule: "a case is a sequence of writes over formulas and of sheet management run on a reference chain and on the library in lockstep; after every save each entry is resolved to a sheet and a cell by an independent reader and compared with the entries that had to stay; distinct by source and sequence",
        assumptions: vec!["a formula that was overwritten by a formula may be listed or not"],
        spaces,
    }
}
