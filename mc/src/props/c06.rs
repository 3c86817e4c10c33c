use super::common::*;
use crate::books;
use crate::sim::*;

fn sheet_ops() -> Vec<Op> {
    use CellDataType as T;
    let a = |x: Act| Op::On("A", x);
    vec![
        a(Act::Put(1, 1, vec![num("7")], false)),
        a(Act::Put(3, 1, vec![txt("x y"), none(), cs("true", T::Boolean)], true)),
        a(Act::Put(2, 2, vec![fml("A1+1").st(0)], false)),
        a(Act::Put(3, 2, vec![num("-2.50").wf("SUM(A1:A2)"), none()], true)),
        a(Act::Put(2, 27, vec![cs("in", T::InlineString), cs("s", T::String)], false)),
        a(Act::Put(1048576, 16384, vec![num("1")], true)),
        a(Act::BadCells(3, 1, vec![num("9"), num("nine")])),
        a(Act::Row(3, RS { ht: Some(12.5), hidden: Some(true), ..Default::default() })),
        a(Act::Row(2, RS { style: Some(0), top: Some(true), bot: Some(true), ..Default::default() })),
        a(Act::Row(3, RS::default())),
        Op::Reopen,
    ]
}
/// within one handle, cells around each other
fn handle_ops() -> Vec<Op> {
    let d = |x: Act| Op::Do(0, x);
    vec![
        Op::Get(0, "A"),
        Op::Drop(0),
        d(Act::Put(2, 2, vec![num("1"), num("2"), num("3")], false)),
        d(Act::Put(2, 1, vec![txt("t"), fml("B2").st(1)], true)),
        d(Act::Put(1, 3, vec![num("4")], false)),
        d(Act::Put(10, 2, vec![num("5"), none()], true)),
        d(Act::Row(2, RS { ht: Some(40.0), style: Some(1), hidden: Some(false), ..Default::default() })),
        d(Act::Put(2, 2, vec![none().st(1)], false)),
        Op::Reopen,
    ]
}
pub fn check(deep: bool) -> Check {
    let aspects = A_GRID | A_ROWS | A_ORDER | A_RES;
    let mut spaces = vec![];
    let gaps = {
        let mut w = Wb::new(&["A"]);
        // no references anywhere, gaps, a row without cells
        w.sheets[0].2 = fx::sheet("<sheetData><row><c><v>1</v></c><c r=\"D1\"><v>2</v></c><c><v>3</v></c></row><row r=\"5\" hidden=\"1\"/><row><c r=\"B6\" t=\"str\"><v>x</v></c></row></sheetData>");
        w.zip()
    };
    let d = if deep { 4 } else { 3 };
    spaces.push(seq_space(
        "open-write-close",
        "all sequences of writes, row settings and save-reopen steps, each in its own open and close of the sheet",
        vec![("plain", Some(books::plain().zip())), ("gaps", Some(gaps.clone())), ("empty", Some(Wb::new(&["A"]).zip()))],
        sheet_ops(),
        d,
        aspects,
    ));
    spaces.push(seq_space(
        "one-handle",
        "all sequences of writes through a held handle, of releasing and reopening it and of save-reopen steps",
        vec![("plain", Some(books::plain().zip())), ("gaps", Some(gaps))],
        handle_ops(),
        if deep { 6 } else { 4 },
        aspects,
    ));
    let mut new_ops = vec![Op::AddDrop(Some("A"))];
    new_ops.extend(sheet_ops());
    spaces.push(seq_space("new-workbook", "the same from a workbook created from nothing", vec![("new", None)], new_ops, if deep { 5 } else { 4 }, aspects));
    spaces.extend(super::scale::grid(deep, aspects));
    // every row setting with every value
    {
        let hs = super::c10::WIDTHS;
        let one = move |i: u64| -> (RS, u32) {
            let mut d = Dig(i);
            let b = |d: &mut Dig| [None, Some(false), Some(true)][d.take(3)];
            (RS { ht: hs[d.take(hs.len())], hidden: b(&mut d), top: b(&mut d), bot: b(&mut d), style: [None, Some(0), Some(1)][d.take(3)] }, [1, 2, 3][d.take(3)])
        };
        spaces.push(Space::new(
            "row-values",
            &format!("{} heights with every choice of the other settings, on three rows with and without settings; saved, reopened, set again", hs.len()),
            (hs.len() * 81 * 3) as u64,
            move |i| format!("{:?} (settings, row)", one(i)),
            move |i, sc| {
                let (p, r) = one(i);
                let mut w = Wb::new(&["A"]);
                w.sheets[0].2 = fx::sheet("<sheetData><row r=\"1\" ht=\"30.25\" customHeight=\"1\" hidden=\"1\" thickTop=\"1\"><c r=\"A1\"><v>1</v></c></row><row r=\"3\" s=\"0\" customFormat=\"1\" thickBot=\"1\"/></sheetData>");
                Sim::run(Some(&w.zip()), aspects, sc, &[Op::Style(0), Op::Style(1), Op::On("A", Act::Row(r, p)), Op::Reopen, Op::On("A", Act::Put(r, 2, vec![num("2")], false)), Op::Reopen, Op::On("A", Act::Row(r, RS { top: Some(true), ..Default::default() }))])
            },
        ));
    }
    // positions that are given and positions that follow from the one before
    {
        let a = |x: Act| Op::On("A", x);
        let edits = std::sync::Arc::new(vec![
            vec![a(Act::Nop)],
            vec![a(Act::Put(1, 2, vec![num("7")], false))],
            vec![a(Act::Put(1, 3, vec![num("7"), txt("z"), none(), fml("1")], true)), Op::Reopen, a(Act::Nop)],
            vec![a(Act::Put(2, 1, vec![none()], false)), a(Act::Put(3, 4, vec![num("8"), num("9")], false))],
            vec![a(Act::Row(2, RS { ht: Some(5.0), ..Default::default() })), a(Act::Row(4, RS { hidden: Some(true), ..Default::default() }))],
            vec![a(Act::Put(5, 1, vec![num("7")], false)), Op::Reopen, a(Act::Put(7, 1, vec![num("6")], true)), a(Act::Put(8, 1, vec![num("6")], true))],
        ]);
        let n = edits.len();
        let e2 = edits.clone();
        let text = |bits: u64| -> String {
            let r = |k: u32, t: &str| if bits >> k & 1 == 1 { format!(" r=\"{t}\"") } else { String::new() };
            format!(
                "<sheetData><row{}><c{}><v>11</v></c><c{} t=\"b\"><v>1</v></c><c r=\"E1\"><v>15</v></c><c{} t=\"str\"><v>x</v></c></row><row{} hidden=\"1\"><c{}><f>A1</f></c><c{}><v>22</v></c></row><row{}><c r=\"C3\"/><c{} s=\"0\"><v>34</v></c></row><row r=\"7\" ht=\"9\" customHeight=\"1\"><c{}><v>71</v></c></row></sheetData>",
                r(0, "1"), r(1, "A1"), r(2, "B1"), r(3, "F1"), r(4, "2"), r(5, "A2"), r(6, "B2"), r(7, "3"), r(8, "D3"), r(9, "A7")
            )
        };
        spaces.push(Space::new(
            "positions",
            &format!("every choice of which of 10 rows and cells say where they are (the others follow the one before), under each of {n} edits"),
            (n as u64) << 10,
            move |i| format!("{}; {:?}", text(i / n as u64), e2[(i % n as u64) as usize]),
            move |i, sc| {
                let mut w = Wb::new(&["A"]);
                w.sheets[0].2 = fx::sheet(&text(i / n as u64));
                Sim::run(Some(&w.zip()), aspects, sc, &edits[(i % n as u64) as usize])
            },
        ));
    }
    spaces.push(super::forms::space(deep, aspects));
    Check {
        id: "C06",
        level: "model_checking",
        rule: "a case is a sequence of operations from a source workbook, run on a reference grid and on the library in lockstep; after every save the file is read by an independent reader and compared cell by cell and row by row; sequences with an operation that is not applicable are counted as trivial; distinct by sequence",
        assumptions: vec!["an empty cell without style and an absent cell are the same", "a row without cells and properties and an absent row are the same", "row attributes the library has no setting for may be kept or dropped when the row is set"],
        spaces,
    }
}
