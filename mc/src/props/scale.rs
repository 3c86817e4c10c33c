//! Sizes: the same few operations on many rows, cells, texts, sheets, columns, formulas, elements. The
//! sizes are every small power of two and round number with its neighbours, where a limit, a batch or a
//! block of the library's own would end.
use super::common::*;
use crate::sim::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

/// Operations hold static text; what is generated is kept once.
pub fn keep(s: String) -> &'static str {
    static T: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut t = T.lock().unwrap_or_else(|e| e.into_inner());
    let m = t.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(&s) {
        return x;
    }
    let x: &'static str = Box::leak(s.clone().into_boxed_str());
    m.insert(s, x);
    x
}
pub fn sizes(max: usize) -> Vec<usize> {
    let mut v = vec![3, 5];
    for p in [10usize, 16, 20, 26, 32, 50, 64, 100, 128, 200, 250, 256, 500, 512, 1000, 1024, 2000, 2048, 4000, 4096, 5000, 8192, 10_000, 16_383, 32_768, 65_535, 65_536] {
        v.extend([p - 1, p, p + 1]);
    }
    v.retain(|n| *n <= max);
    v.sort_unstable();
    v.dedup();
    v
}
pub type Make = Arc<dyn Fn(usize) -> (Option<Vec<u8>>, Vec<Op>) + Send + Sync>;
pub fn space(name: &str, what: &str, max: usize, forms: Vec<(&'static str, Make)>, aspects: u32) -> Space {
    let v = sizes(max);
    let forms = Arc::new(forms);
    let (f2, v2) = (forms.clone(), v.clone());
    let n = forms.len();
    Space::new(
        name,
        &format!("{what}: {} forms by {} sizes up to {max}", n, v.len()),
        (n * v.len()) as u64,
        move |i| format!("{}, size {}", f2[i as usize % n].0, v2[i as usize / n]),
        move |i, sc| {
            let (src, ops) = (forms[i as usize % n].1)(v[i as usize / n]);
            Sim::run(src.as_deref(), aspects, sc, &ops)
        },
    )
}
pub fn form(name: &'static str, f: impl Fn(usize) -> (Option<Vec<u8>>, Vec<Op>) + Send + Sync + 'static) -> (&'static str, Make) {
    (name, Arc::new(f))
}
fn nums(k: usize, at: usize) -> Vec<CS> {
    (0..k).map(|i| num(keep((i + at).to_string()))).collect()
}
fn words(k: usize, p: &str) -> Vec<CS> {
    (0..k).map(|i| txt(keep(format!("{p}{i}")))).collect()
}
fn book(rows: &str, sst: Option<String>) -> Vec<u8> {
    let mut w = Wb::new(&["A", "B"]);
    w.sheets[0].2 = fx::sheet(&format!("<sheetData>{rows}</sheetData>"));
    w.sheets[1].2 = fx::sheet("<sheetData><row r=\"2\"><c r=\"A2\"><v>7</v></c></row></sheetData>");
    w.sst = sst.map(|s| fx::sst(&s));
    w.zip()
}
pub fn grid(deep: bool, aspects: u32) -> Vec<Space> {
    let on = |a| Op::On("A", a);
    let row = |r: u32, v: Vec<CS>| Act::Put(r, 1, v, r % 2 == 0);
    let rows_src = |k: usize| (1..=k).map(|r| format!("<row r=\"{r}\"><c r=\"A{r}\"><v>{r}</v></c><c r=\"B{r}\" t=\"str\"><v>b{r}</v></c></row>")).collect::<String>();
    let held = |acts: Vec<Act>| -> Vec<Op> {
        let mut v = vec![Op::Get(0, "A")];
        v.extend(acts.into_iter().map(|a| Op::Do(0, a)));
        v.push(Op::Drop(0));
        v
    };
    let twice = |mut v: Vec<Op>| {
        v.push(Op::Reopen);
        v.push(Op::On("A", Act::Put(3, 2, vec![num("77")], false)));
        v
    };
    let forms = vec![
        form("a row of k cells in one call", move |k| (Some(book("", None)), twice(vec![on(row(2, nums(k.min(16384), 5)))]))),
        form("k cells of a row one by one, from the end", move |k| (Some(book("", None)), twice(held((1..=k.min(16384)).rev().map(|c| Act::Put(2, c as u32, vec![num(keep(c.to_string()))], c % 2 == 0)).collect())))),
        form("k rows going down", move |k| (Some(book("", None)), twice(held((1..=k).map(|r| row(r as u32, nums(1, r))).collect())))),
        form("k rows going up", move |k| (Some(book("", None)), twice(held((1..=k).rev().map(|r| row(r as u32, nums(2, r))).collect())))),
        form("k rows far apart, outside in", move |k| {
            let g = 1_048_576 / (k as u32 + 1);
            (None, {
                let mut v = vec![Op::AddDrop(Some("A"))];
                v.extend(held((0..k as u32).map(|i| if i % 2 == 0 { i / 2 } else { k as u32 - 1 - i / 2 }).map(|i| Act::Put(1 + i * g, 1 + (i * 7) % 16000, vec![num("1")], false)).collect()));
                twice(v)
            })
        }),
        form("k rows of the source, edited at the start, in the middle and at the end", move |k| {
            let k = k as u32;
            (Some(book(&rows_src(k as usize), None)), twice(vec![on(row(1, nums(1, 50))), on(row(k / 2 + 1, nums(3, 60))), on(row(k, vec![none(), none()])), on(row(k + 1, nums(1, 70))), on(row(k + 1000, nums(1, 80)))]))
        }),
        form("k rows of the source, every other overwritten", move |k| (Some(book(&rows_src(k), None)), twice(held((1..=k as u32).filter(|r| r % 2 == 0).map(|r| Act::Put(r, 2, vec![txt("n"), num("3")], false)).collect())))),
        form("k cells of a row of the source, edited around", move |k| {
            let k = k.min(16000);
            let cells: String = (1..=k).map(|c| format!("<c r=\"{}2\"><v>{c}</v></c>", wb::col_name(c as u32))).collect();
            (Some(book(&format!("<row r=\"2\">{cells}</row>"), None)), twice(vec![on(Act::Put(2, k as u32 + 1, nums(2, 4), false)), on(Act::Put(2, k as u32 / 2 + 1, vec![txt("mid")], true)), on(Act::Put(2, 1, vec![none()], false))]))
        }),
        form("properties of k rows", move |k| (Some(book(&rows_src(k / 2), None)), twice(held((1..=k as u32).map(|r| Act::Row(r, RS { ht: Some(10.0 + (r % 50) as f32), hidden: Some(r % 3 == 0), ..Default::default() })).collect())))),
        form("k times the same cell", move |k| (Some(book("", None)), twice(held((0..k).map(|i| Act::Put(4, 4, vec![num(keep(i.to_string()))], i % 2 == 0)).collect())))),
    ];
    let few = vec![
        form("k times the sheet opened, written and closed", move |k| (Some(book("", None)), (0..k).map(|i| on(Act::Put(1 + (i as u32 * 7) % 40, 1 + i as u32 % 5, vec![num(keep(i.to_string()))], false))).collect())),
        form("k times saved and reopened with a write between", move |k| {
            let k = k.min(65);
            (Some(book("", None)), (0..k).flat_map(|i| [on(Act::Put(1 + i as u32, 1, vec![num(keep(i.to_string())), txt(keep(format!("t{i}")))], false)), Op::Reopen]).collect())
        }),
    ];
    vec![
        space("sizes", "many cells, rows and calls", if deep { 10_001 } else { 4_097 }, forms, aspects),
        space("repeats", "many handles and many saves", if deep { 1_025 } else { 257 }, few, aspects),
    ]
}
pub fn strings(deep: bool, aspects: u32) -> Vec<Space> {
    let on = |n: &'static str, r: u32, v: Vec<CS>| Op::On(n, Act::Put(r, 1, v, false));
    let entries = |k: usize| (0..k).map(|i| match i % 5 { 3 => format!("<si><r><t>e{i}</t></r></si>"), 4 => format!("<si><t xml:space=\"preserve\"> e{i}</t></si>"), _ => format!("<si><t>e{i}</t></si>") }).collect::<String>();
    let cells = |k: usize| (0..k).map(|i| format!("<row r=\"{}\"><c r=\"A{0}\" t=\"s\"><v>{i}</v></c></row>", i + 1)).collect::<String>();
    let forms = vec![
        form("k new texts", move |k| (Some(book("", None)), vec![on("A", 1, words(k.min(16384), "w")), on("B", 1, words(k.min(200), "w")), Op::Reopen, on("A", 2, words(3, "x")), on("B", 3, words(k.min(2000), "w"))])),
        form("k new texts in k calls, each twice", move |k| {
            let mut v = vec![Op::Get(0, "A")];
            for i in 0..k {
                v.push(Op::Do(0, Act::Put(i as u32 + 1, 1, vec![txt(keep(format!("w{i}"))), txt(keep(format!("w{}", k - 1 - i)))], false)));
            }
            v.extend([Op::Drop(0), Op::Reopen, on("B", 1, words(2, "w"))]);
            (None, [vec![Op::AddDrop(Some("A")), Op::AddDrop(Some("B"))], v].concat())
        }),
        form("a table of k entries, all used, then old and new texts", move |k| (Some(book(&cells(k), Some(entries(k)))), vec![on("B", 1, words(40.min(k), "e")), on("B", 2, words(5, "n")), on("B", 3, vec![txt(keep(format!("e{}", k - 1))), txt(keep(format!(" e{}", k - 1)))]), Op::Reopen, on("A", 1, words(2, "n"))])),
        form("a table of k entries, then k new texts", move |k| (Some(book(&cells(k), Some(entries(k)))), vec![on("B", 1, words(k.min(16384), "n")), Op::Reopen, on("B", 2, words(k.min(16384), "e"))])),
        form("a table of k equal entries", move |k| (Some(book(&cells(k), Some("<si><t>same</t></si>".repeat(k)))), vec![on("B", 1, vec![txt("same"), txt("other"), txt("same")]), Op::Reopen, on("A", 1, vec![txt("other")])])),
        form("k texts of growing length", move |k| {
            let k = k.min(1025);
            (Some(book("", None)), vec![on("A", 1, (0..k).map(|i| txt(keep("y".repeat(i)))).collect()), Op::Reopen, on("B", 1, vec![txt(keep("y".repeat(k - 1))), txt(keep("y".repeat(k)))])])
        }),
    ];
    vec![space("sizes", "many texts and entries", if deep { 10_001 } else { 4_097 }, forms, aspects)]
}
pub fn sheets(deep: bool, aspects: u32) -> Vec<Space> {
    let many = |k: usize| {
        let names: Vec<String> = (0..k).map(|i| format!("s{i}")).collect();
        let mut w = Wb::new(&names.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        for (i, s) in w.sheets.iter_mut().enumerate() {
            s.2 = fx::sheet(&format!("<sheetData><row r=\"1\"><c r=\"A1\"><v>{i}</v></c></row></sheetData>"));
        }
        w.zip()
    };
    let n = |p: &str, i: usize| keep(format!("{p}{i}"));
    let forms = vec![
        form("k sheets added without a name", move |k| (None, (0..k).map(|_| Op::AddDrop(None)).chain([Op::At(k - 1, Act::Put(1, 1, vec![num("1")], false)), Op::Reopen, Op::AddDrop(None)]).collect())),
        form("k sheets added with names, written, renamed", move |k| {
            let mut v: Vec<Op> = vec![];
            for i in 0..k {
                v.push(Op::AddDrop(Some(n("a", i))));
                v.push(Op::On(n("a", i), Act::Put(1, 1, vec![num(n("", i))], false)));
            }
            v.extend((0..k).map(|i| Op::Rename(n("a", i), n("b", i))));
            v.extend([Op::Reopen, Op::Active(n("b", k - 1)), Op::Hide(n("b", 0))]);
            (None, v)
        }),
        form("every third of k sheets of the source deleted, one added for each", move |k| {
            let mut v: Vec<Op> = vec![];
            for i in (0..k).filter(|i| i % 3 == 1) {
                v.push(Op::DelName(n("s", i)));
                v.push(Op::AddDrop(Some(n("t", i))));
            }
            v.extend([Op::Reopen, Op::AddDrop(None)]);
            (Some(many(k)), v)
        }),
        form("all but the last of k sheets of the source deleted", move |k| (Some(many(k)), (0..k - 1).map(|i| Op::DelName(n("s", i))).chain([Op::Reopen, Op::AddDrop(None)]).collect())),
        form("all but the first of k sheets deleted, from the end", move |k| (Some(many(k)), (1..k).rev().map(|i| Op::DelName(n("s", i))).chain([Op::AddDrop(None), Op::Reopen, Op::AddDrop(None)]).collect())),
        form("k sheets of the source hidden and shifted names", move |k| (Some(many(k)), (0..k - 1).map(|i| Op::Hide(n("s", i))).chain((0..k).rev().map(|i| Op::Rename(n("s", i), n("s", i + 1)))).chain([Op::Active(n("s", k)), Op::Reopen]).collect())),
        form("a sheet renamed k times", move |k| (Some(many(2)), std::iter::once(Op::Rename("s0", "r0")).chain((0..k).map(|i| Op::Rename(n("r", i), n("r", i + 1)))).chain([Op::Reopen]).collect())),
        form("a sheet added and deleted k times", move |k| (Some(many(2)), (0..k).flat_map(|i| [Op::AddDrop(Some(n("x", i / 2))), Op::DelName(n("x", i / 2))]).chain([Op::Reopen, Op::AddDrop(None)]).collect())),
    ];
    vec![space("sizes", "many sheets and calls", if deep { 2_049 } else { 513 }, forms, aspects)]
}
pub fn columns(deep: bool, aspects: u32) -> Vec<Space> {
    let src = |cols: String| {
        let mut w = Wb::new(&["A"]);
        w.sheets[0].2 = fx::sheet(&format!("{}<sheetData/>", if cols.is_empty() { cols } else { format!("<cols>{cols}</cols>") }));
        Some(w.zip())
    };
    let wd = |x: f32| Some(ColS { width: Some(x), ..Default::default() });
    let held = move |acts: Vec<Act>| -> Vec<Op> { std::iter::once(Op::Get(0, "A")).chain(acts.into_iter().map(|a| Op::Do(0, a))).chain([Op::Drop(0), Op::Reopen, Op::On("A", Act::Col(2, wd(99.0), false))]).collect() };
    let forms = vec![
        form("k columns with the same width", move |k| (src(String::new()), held((1..=k as u32).map(|c| Act::Col(c, wd(12.0), c % 2 == 0)).collect()))),
        form("k columns with different widths, from the end", move |k| (src(String::new()), held((1..=k as u32).rev().map(|c| Act::Col(c, wd(1.0 + (c % 200) as f32), c % 2 == 0)).collect()))),
        form("k ranges of the source, every third column set, every fifth cleared", move |k| {
            (src((1..=k).map(|c| format!("<col min=\"{c}\" max=\"{c}\" width=\"{}\" customWidth=\"1\"/>", 1 + c % 200)).collect()), held((1..=k as u32).filter(|c| c % 3 == 0 || c % 5 == 0).map(|c| Act::Col(c, if c % 5 == 0 { None } else { wd(50.0) }, false)).collect()))
        }),
        form("one range of the source cut k times", move |k| (src("<col min=\"1\" max=\"16384\" width=\"9\" customWidth=\"1\"/>".into()), held((1..=k as u32).map(|c| Act::Col(c * 3, if c % 2 == 0 { None } else { wd(3.0) }, false)).collect()))),
        form("one column set k times", move |k| (src(String::new()), held((1..=k).map(|i| Act::Col(3, if i % 7 == 0 { None } else { wd(1.0 + (i % 250) as f32) }, i % 2 == 0)).collect()))),
    ];
    vec![space("sizes", "many columns and calls", if deep { 2_049 } else { 1_025 }, forms, aspects)]
}
pub fn chains(deep: bool, aspects: u32) -> Vec<Space> {
    let src = |k: usize, inherit: bool| {
        let mut w = Wb::new(&["A", "B"]);
        let rows = |m: usize| (1..=k).filter(|r| r % 2 == m).map(|r| format!("<row r=\"{r}\"><c r=\"A{r}\"><f>{r}</f><v>{r}</v></c></row>")).collect::<String>();
        w.sheets[0].2 = fx::sheet(&format!("<sheetData>{}</sheetData>", rows(1)));
        w.sheets[1].2 = fx::sheet(&format!("<sheetData>{}</sheetData>", rows(0)));
        let items: String = if inherit {
            (1..=k).filter(|r| r % 2 == 1).map(|r| if r == 1 { "<c r=\"A1\" i=\"1\"/>".to_string() } else { format!("<c r=\"A{r}\"/>") }).chain((1..=k).filter(|r| r % 2 == 0).map(|r| if r == 2 { "<c r=\"A2\" i=\"2\" l=\"1\"/>".to_string() } else { format!("<c r=\"A{r}\"/>") })).collect()
        } else {
            (1..=k).rev().map(|r| format!("<c r=\"A{r}\" i=\"{}\" s=\"{}\"/>", 2 - r % 2, r % 4 / 2)).collect()
        };
        w.calc = Some(format!("{}<calcChain xmlns=\"{}\">{items}</calcChain>", fx::DECL, wb::X));
        Some(w.zip())
    };
    let put = |r: usize, v: Vec<CS>| Op::On(if r % 2 == 1 { "A" } else { "B" }, Act::Put(r as u32, 1, v, false));
    let mut forms = vec![];
    for (inherit, a, b, c, d) in [
        (false, "k entries, every third overwritten", "k entries, the sheet of half of them deleted", "k entries, one overwritten", "k entries, new formulas beside and over them"),
        (true, "k entries of inherited sheets, every third overwritten", "k entries of inherited sheets, the sheet of half of them deleted", "k entries of inherited sheets, one overwritten", "k entries of inherited sheets, new formulas beside and over them"),
    ] {
        forms.push(form(a, move |k| {
            let mut v = vec![Op::Get(0, "A"), Op::Get(1, "B")];
            v.extend((1..=k).filter(|r| r % 3 == 0).map(|r| Op::Do(1 - r % 2, Act::Put(r as u32, 1, vec![num("1")], false))));
            v.extend([Op::Drop(0), Op::Drop(1), Op::Reopen, put(1, vec![num("4")])]);
            (src(k, inherit), v)
        }));
        forms.push(form(b, move |k| (src(k, inherit), vec![Op::DelName("A"), Op::Reopen, Op::AddDrop(Some("A")), Op::On("A", Act::Put(1, 1, vec![fml("1")], false))])));
        forms.push(form(c, move |k| (src(k, inherit), vec![put(k, vec![txt("t")]), Op::Reopen, put(1, vec![num("1")])])));
        forms.push(form(d, move |k| (src(k, inherit), vec![put(k, vec![none(), fml("2"), fml("3")]), put(1, vec![fml("5")]), Op::Reopen, put(k / 2 + 1, vec![none()])])));
    }
    vec![space("sizes", "many entries", if deep { 32_769 } else { 4_097 }, forms, aspects)]
}
