use super::common::*;
use crate::books;
use crate::sim::*;

pub fn check(deep: bool) -> Check {
    use CellDataType as T;
    const ASPECTS: u32 = A_SST | A_GRID | A_RES;
    let one = |r: u32, v: &'static str, t: T| Op::On("A", Act::Put(r, 1, vec![cs(v, t)], false));
    let texts = vec![
        one(11, "alpha", T::ShareString),
        one(12, "", T::ShareString),
        one(13, "be ta", T::ShareString),
        one(14, "  gamma ", T::Auto),
        one(14, "gamma", T::Auto),
        one(15, "delta", T::ShareString),
        one(16, "課", T::Auto),
        one(17, "a&b<c> \"q\"", T::ShareString),
        one(18, "brand new", T::Auto),
        one(19, "ALPHA", T::ShareString),
        one(11, "\t", T::ShareString),
        one(1, "in place", T::ShareString),
        Op::Reopen,
    ];
    let wide = vec![
        Op::On("A", Act::Put(1, 1, vec![txt("alpha"), txt("n1"), txt("n2"), txt("n1"), txt("")], false)),
        Op::On("B", Act::Put(2, 1, vec![txt("n2"), txt("alpha"), txt("n3")], false)),
        Op::On("A", Act::Put(1, 2, vec![num("5"), none()], false)),
        Op::On("B", Act::BadCells(2, 1, vec![txt("never"), num("x")])),
        Op::Get(0, "B"),
        Op::Do(0, Act::Put(9, 9, vec![txt("held"), txt("n1")], false)),
        Op::DelName("A"),
        Op::AddDrop(Some("N")),
        Op::On("N", Act::Put(1, 1, vec![txt("  gamma "), txt("delta")], true)),
        Op::Reopen,
    ];
    let plain = || ("rich table", Some(books::plain().zip()));
    let without = {
        let mut w = books::plain();
        w.sst = None;
        w.sheets[0].2 = fx::sheet("<sheetData/>");
        w.sheets[1].2 = fx::sheet("<sheetData/>");
        w.calc = None;
        ("no table", Some(w.zip()))
    };
    let odd = |items: &str, attrs: &str| {
        let mut w = books::plain();
        w.sst = Some(format!("<?xml version=\"1.0\"?><sst xmlns=\"{}\"{attrs}>{items}</sst>", wb::X));
        w.sheets[0].2 = fx::sheet("<sheetData><row r=\"1\"><c r=\"A1\" t=\"s\"><v>0</v></c><c r=\"B1\" t=\"s\"><v>1</v></c></row></sheetData>");
        w.sheets[1].2 = fx::sheet("<sheetData/>");
        w.calc = None;
        w.zip()
    };
    let odd1 = ("without counts, with extension list", Some(odd("<si><t>alpha</t></si>\n<si><t xml:space=\"preserve\">\n</t></si><extLst><ext uri=\"u\"><q xmlns=\"urn:q\"/></ext></extLst>", "")));
    let odd2 = ("count larger than unique count, all equal", Some(odd("<si><t>delta</t></si><si><t>delta</t></si>", " count=\"40\" uniqueCount=\"2\"")));
    let mut spaces = vec![
        seq_space("texts", "every sequence of writing texts that meet existing entries", vec![plain(), without, odd1.clone(), odd2.clone()], texts, if deep { 4 } else { 3 }, ASPECTS),
        seq_space("sharing", "every sequence over two sheets that share entries", vec![plain(), odd1], wide.clone(), if deep { 5 } else { 4 }, ASPECTS),
    ];
    let mut new_ops = wide;
    new_ops.insert(0, Op::AddDrop(Some("A")));
    new_ops.insert(1, Op::AddDrop(Some("B")));
    spaces.push(seq_space("new-workbook", "the same from nothing", vec![("new", None)], new_ops, if deep { 5 } else { 4 }, ASPECTS));
    // every table of up to n entries from an alphabet of entry forms, every entry used, then texts written
    const E: &[&str] = &[
        "<si><t>a</t></si>",
        "<si><t/></si>",
        "<si/>",
        "<si><r><t>a</t></r></si>",
        "<si><t xml:space=\"preserve\"> a</t></si>",
        "<si><t> a</t></si>",
        "<si><t>a</t><phoneticPr fontId=\"1\"/></si>",
        "<si><t>b</t></si>",
        "<si><r><rPr><b/></rPr><t>a</t></r><r><t>b</t></r></si>",
    ];
    let n = if deep { 5 } else { 4 };
    let k = E.len() as u64;
    let table = move |i: u64| -> Vec<u8> {
        let v = seq_at(k, i);
        let items: String = v.iter().map(|j| E[*j]).collect();
        let cells: String = v.iter().enumerate().map(|(j, _)| format!("<row r=\"{}\"><c r=\"A{0}\" t=\"s\"><v>{j}</v></c></row>", j + 1)).collect();
        let mut w = Wb::new(&["A"]);
        w.sheets[0].2 = fx::sheet(&format!("<sheetData>{cells}</sheetData>"));
        w.sst = Some(fx::sst(&items));
        w.zip()
    };
    spaces.push(Space::new(
        "tables",
        &format!("every table of up to {n} entries over {k} entry forms; every entry is used, then five texts are written, saved, reopened, written again"),
        seq_total(k, n),
        move |i| seq_at(k, i).iter().map(|j| E[*j]).collect::<String>(),
        move |i, sc| {
            Sim::run(
                Some(&table(i)),
                ASPECTS,
                sc,
                &[
                    Op::On("A", Act::Put(1, 2, vec![txt("a"), txt("b"), txt("ab"), txt(""), txt(" a")], false)),
                    Op::Reopen,
                    Op::On("A", Act::Put(2, 2, vec![txt(" a"), txt("c"), txt("a"), txt("")], false)),
                ],
            )
        },
    ));
    spaces.extend(super::scale::strings(deep, ASPECTS));
    spaces.push(super::forms::space(deep, ASPECTS));
    Check {
        id: "C08",
        level: "model_checking",
        rule: "a case is a sequence of text writes (or a table of entries followed by writes) run on a reference grid and on the library in lockstep; after every save the table is compared entry by entry with the source and every cell is resolved through it by an independent reader; distinct by sequence or table",
        assumptions: vec!["the count attribute is not checked, uniqueCount is"],
        spaces,
    }
}
