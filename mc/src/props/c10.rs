use super::common::*;
use crate::sim::*;

fn src(cols: &str) -> Option<Vec<u8>> {
    let mut w = Wb::new(&["A"]);
    let c = if cols.is_empty() { String::new() } else { format!("<cols>{cols}</cols>") };
    w.sheets[0].2 = fx::sheet(&format!("{c}<sheetData><row r=\"1\"><c r=\"B1\"><v>1</v></c></row></sheetData>"));
    Some(w.zip())
}
fn sources() -> Sources {
    vec![
        ("none", src("")),
        ("ranges", src("<col min=\"1\" max=\"3\" width=\"9\" customWidth=\"1\"/><col min=\"4\" max=\"4\" hidden=\"1\" width=\"0\"/><col min=\"6\" max=\"16384\" style=\"0\" width=\"12.5\" customWidth=\"1\" outlineLevel=\"1\" collapsed=\"1\"/>")),
        ("one range over all", src("<col min=\"1\" max=\"16384\" width=\"3.5\" customWidth=\"true\" bestFit=\"1\" phonetic=\"1\"/>")),
        ("overlapping and out of order", src("<col min=\"5\" max=\"9\" width=\"5\" customWidth=\"1\"/><col min=\"2\" max=\"6\" width=\"2\" customWidth=\"1\"/><col min=\"3\" max=\"3\" hidden=\"1\" width=\"9\"/>")),
        ("equal neighbours and duplicates", src("<col min=\"1\" max=\"1\" width=\"7\" customWidth=\"1\"/><col min=\"2\" max=\"2\" width=\"7\" customWidth=\"1\"/><col min=\"2\" max=\"2\" width=\"7\" customWidth=\"1\"/><col min=\"3\" max=\"5\" width=\"7\" customWidth=\"1\"/>")),
    ]
}
/// Widths and heights: whole, with many digits, very small and large.
pub const WIDTHS: [Option<f32>; 20] = [
    None, Some(0.0), Some(1.0), Some(8.43), Some(9.140625), Some(12.7109375), Some(0.33333334), Some(20.005), Some(99.999), Some(100.0), Some(123.4567), Some(254.99), Some(255.0), Some(409.5), Some(0.001), Some(1e-7), Some(0.1),
    Some(16777216.0), Some(3.0e9), Some(15.75),
];
pub fn check(deep: bool) -> Check {
    const ASPECTS: u32 = A_COLS | A_RES;
    let w = |x: f32| Some(ColS { width: Some(x), ..Default::default() });
    let all = || {
        let c = |k: u32, p: Option<ColS>, r: bool| Op::On("A", Act::Col(k, p, r));
        vec![
            c(1, w(10.0), false),
            c(2, Some(ColS { hidden: Some(true), ..Default::default() }), true),
            c(3, Some(ColS { style: Some(0), best: Some(true), ..Default::default() }), false),
            c(4, Some(ColS { width: Some(0.25), style: Some(1), hidden: Some(true), best: Some(true) }), true),
            c(4, Some(ColS { width: Some(0.25), style: Some(1), hidden: Some(false), best: Some(false) }), true),
            c(16384, w(255.0), false),
            c(2, None, false),
            c(4, None, true),
            c(8, None, false),
            c(16384, None, true),
            c(3, Some(ColS::default()), false),
            Op::On("A", Act::BadCol(0)),
            Op::On("A", Act::BadCol(16385)),
            Op::On("A", Act::Put(1, 4, vec![num("1")], false)),
            Op::Reopen,
        ]
    };
    let held = vec![
        Op::Get(0, "A"),
        Op::Do(0, Act::Col(2, w(1.5), false)),
        Op::Do(0, Act::Col(3, w(2.5), false)),
        Op::Do(0, Act::Col(3, None, true)),
        Op::Do(0, Act::Col(5, Some(ColS { hidden: Some(true), ..Default::default() }), false)),
        Op::Do(0, Act::Col(5, None, false)),
        Op::Do(0, Act::Col(1, None, false)),
        Op::Drop(0),
        Op::Reopen,
    ];
    // every pair of source ranges over a small set of columns, then one change at every column
    let k = if deep { 8u64 } else { 6 };
    let ranges: Vec<(u64, u64)> = (1..=k).flat_map(|a| (a..=k).map(move |b| (a, b))).collect();
    let nr = ranges.len() as u64;
    let total = nr * nr * k * 2;
    let pair = move |i: u64| {
        let mut d = Dig(i);
        let c = d.take(k as usize) as u32 + 1;
        let clear = d.take(2) == 1;
        let a = ranges[d.take(nr as usize)];
        let b = ranges[d.take(nr as usize)];
        (a, b, c, clear)
    };
    let pair2 = pair.clone();
    let mut spaces = vec![
        seq_space("settings", "every sequence of column settings, each in its own open and close of the sheet", sources(), all(), if deep { 4 } else { 3 }, ASPECTS),
        seq_space("one-handle", "every sequence of column settings through a held handle", sources(), held, if deep { 6 } else { 5 }, ASPECTS),
        Space::new(
            "ranges",
            &format!("every pair of source ranges over {k} columns, disjoint, touching, nested or overlapping, and one column set or cleared, at every column"),
            total,
            move |i| format!("{:?} (two ranges, column, clear)", pair(i)),
            move |i, sc| {
                let (a, b, c, clear) = pair2(i);
                let s = src(&format!(
                    "<col min=\"{}\" max=\"{}\" width=\"11\" customWidth=\"1\"/><col min=\"{}\" max=\"{}\" width=\"22\" customWidth=\"1\" hidden=\"1\"/>",
                    a.0, a.1, b.0, b.1
                ));
                let p = if clear { None } else { Some(ColS { width: Some(33.0), ..Default::default() }) };
                Sim::run(s.as_deref(), ASPECTS, sc, &[Op::On("A", Act::Col(c, p, c % 2 == 0)), Op::Reopen, Op::On("A", Act::Nop)])
            },
        ),
    ];
    spaces.extend(super::scale::columns(deep, ASPECTS));
    // every setting with every value, where the source has a setting and where it has none
    {
        const W: &[Option<f32>] = &WIDTHS;
        let n = W.len();
        let one = move |i: u64| -> (ColS, u32, bool) {
            let mut d = Dig(i);
            let b = |d: &mut Dig| [None, Some(false), Some(true)][d.take(3)];
            let p = ColS { width: W[d.take(n)], hidden: b(&mut d), best: b(&mut d), style: [None, Some(0), Some(1)][d.take(3)] };
            (p, [2, 4, 9, 20][d.take(4)], d.take(2) == 1)
        };
        spaces.push(Space::new(
            "values",
            &format!("{n} widths with every choice of the other settings, at four columns, by index and by reference; saved, reopened, set without a width"),
            (n * 27 * 8) as u64,
            move |i| format!("{:?} (settings, column, by reference)", one(i)),
            move |i, sc| {
                let (p, c, r) = one(i);
                let s = sources().swap_remove(1).1;
                Sim::run(s.as_deref(), ASPECTS, sc, &[Op::Style(0), Op::Style(1), Op::On("A", Act::Col(c, Some(p), r)), Op::Reopen, Op::On("A", Act::Col(c, Some(ColS { hidden: Some(true), ..Default::default() }), r))])
            },
        ));
    }
    spaces.push(super::forms::space(deep, ASPECTS));
    Check {
        id: "C10",
        level: "model_checking",
        rule: "a case is a source sheet and a sequence of column settings run on a map from column to properties and on the library in lockstep; after every save the map is compared at every column where either side changes, and the ranges must ascend without overlap; distinct by source and sequence",
        assumptions: vec![
            "a column covered by several ranges of the source may have the properties of any of them until it is set",
            "column attributes the library has no setting for may be kept or dropped when the column is set",
        ],
        spaces,
    }
}
