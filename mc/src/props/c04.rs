use super::common::*;
use crate::books;
use draviavemal_openxml_office::spreadsheet_2007::models::{CellDataType as T, CellProperties};
use draviavemal_openxml_office::spreadsheet_2007::parts::WorkSheet;
use std::sync::Arc;

/// What may become of a value: refused, or stored as one of these.
pub struct Want {
    pub refuse: bool,
    pub kinds: Vec<Kind>,
    pub any: bool,
}
fn want(refuse: bool, kinds: Vec<Kind>) -> Want {
    Want { refuse, kinds, any: false }
}
pub fn representable(s: &str) -> bool {
    s.chars().all(xml::is_xml_char)
}
/// -?digits(.digits)?((e|E)[+-]?digits)? : the numbers everyone agrees about
fn plain_number(v: &str) -> bool {
    let b = v.as_bytes();
    let mut i = 0;
    let digits = |i: &mut usize| {
        let s = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1;
        }
        *i > s
    };
    if i < b.len() && b[i] == b'-' {
        i += 1;
    }
    if !digits(&mut i) {
        return false;
    }
    if i < b.len() && b[i] == b'.' {
        i += 1;
        if !digits(&mut i) {
            return false;
        }
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        if !digits(&mut i) {
            return false;
        }
    }
    i == b.len()
}
/// also what xsd:double allows beyond that: a plus sign, missing digits on one side of the point
fn loose_number(v: &str) -> bool {
    let u = v.strip_prefix('+').unwrap_or(v);
    if u.starts_with(['+']) || (v.starts_with('+') && u.starts_with('-')) {
        return false;
    }
    if plain_number(u) {
        return true;
    }
    let (neg, w) = match u.strip_prefix('-') {
        Some(w) => ("-", w),
        None => ("", u),
    };
    let (m, e) = match w.find(['e', 'E']) {
        Some(i) => (&w[..i], &w[i..]),
        None => (w, ""),
    };
    let m2 = if let Some(x) = m.strip_suffix('.') {
        format!("{x}.0")
    } else if m.starts_with('.') {
        format!("0{m}")
    } else {
        return false;
    };
    plain_number(&format!("{neg}{m2}{e}"))
}
/// A spreadsheet stores IEEE doubles; what overflows is no number, what underflows may be either.
fn finite(v: &str) -> bool {
    v.parse::<f64>().is_ok_and(|f| f.is_finite())
}
fn underflows(v: &str) -> bool {
    let mant = v.split(['e', 'E']).next().unwrap_or("");
    finite(v) && v.parse::<f64>().is_ok_and(|f| f == 0.0 || f.is_subnormal()) && mant.chars().any(|c| c.is_ascii_digit() && c != '0')
}
pub fn wanted(v: Option<&str>, t: T) -> Want {
    let Some(v) = v else { return want(false, vec![Kind::Blank]) };
    let text = || Kind::Text(v.to_string());
    let number = || Kind::Num(v.to_string());
    if !representable(v) {
        return want(true, vec![]);
    }
    match t {
        T::String | T::ShareString | T::InlineString => want(false, vec![text()]),
        T::Error => {
            // the error values of the format; other text is no error value
            let known = ["#NULL!", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#N/A", "#GETTING_DATA"].contains(&v);
            want(!known, vec![Kind::Err(v.to_string())])
        }
        T::Boolean => match v {
            "true" | "TRUE" | "True" | "1" => want(false, vec![Kind::Bool(true)]),
            "false" | "FALSE" | "False" | "0" => want(false, vec![Kind::Bool(false)]),
            _ => Want { refuse: true, kinds: vec![Kind::Bool(true), Kind::Bool(false)], any: false },
        },
        T::Number => {
            if plain_number(v) && finite(v) {
                want(underflows(v), vec![number()])
            } else if loose_number(v) && finite(v) {
                want(true, vec![number()])
            } else {
                want(true, vec![])
            }
        }
        T::Auto => {
            let l = v.to_ascii_lowercase();
            if v == "true" || v == "false" {
                want(false, vec![Kind::Bool(v == "true")])
            } else if l == "true" || l == "false" {
                want(false, vec![Kind::Bool(l == "true"), text()])
            } else if plain_number(v) && finite(v) {
                let odd = underflows(v) || v.trim_start_matches('-').len() > 1 && v.trim_start_matches('-').starts_with('0') && !v.trim_start_matches('-').starts_with("0.") || v.bytes().filter(|b| b.is_ascii_digit()).count() > 15;
                if odd { want(false, vec![number(), text()]) } else { want(false, vec![number()]) }
            } else if loose_number(v) && finite(v) {
                want(false, vec![number(), text()])
            } else {
                want(false, vec![text()])
            }
        }
    }
}
#[derive(Clone)]
pub struct Val {
    pub v: Option<String>,
    pub t: T,
    pub f: Option<String>,
}
fn val(v: &str, t: T) -> Val {
    Val { v: Some(v.into()), t, f: None }
}
fn prop(v: &Val) -> CellProperties {
    let mut c = CellProperties::default();
    c.value = v.v.clone();
    c.data_type = v.t;
    c.formula = v.f.clone();
    c
}
const PER_ROW: u32 = 8;
fn at(i: usize) -> (u32, u16) {
    (1 + i as u32 / PER_ROW, 1 + (i as u32 % PER_ROW) as u16)
}
fn put(w: &mut WorkSheet, i: usize, v: &Val) -> Res<()> {
    let (r, c) = at(i);
    ws_call(w, |w| {
        if i % 2 == 0 {
            w.set_row_value_index_mut(r, c, vec![prop(v)])
        } else {
            w.set_row_value_ref_mut(&wb::cref(r, c as u32), vec![prop(v)])
        }
    })
}
/// Writes every value into a cell of its own, saves, reads; opens, touches the sheet, saves, reads again.
pub fn write_all(vals: &[Val], src: Option<&[u8]>, sc: &Scratch) -> Out {
    let mut o = Out { nontrivial: true, ..Default::default() };
    let path = src.map(|b| sc.put("xlsx", b));
    let name = "A";
    let Res::Ok(mut xl) = open(path.as_deref()) else { panic!("harness: fixture does not open") };
    let got = if src.is_some() { xl.get(name) } else { xl.add(Some(name)) };
    let Res::Ok(mut w) = got else {
        o.bad(format!("no sheet to write to: {}", got_show(got)));
        return o;
    };
    let mut stored = vec![false; vals.len()];
    for (i, v) in vals.iter().enumerate() {
        o.transitions += 1;
        let want = wanted_val(v);
        match put(&mut w, i, v) {
            Res::Ok(()) => {
                stored[i] = true;
                if want.kinds.is_empty() && !want.any {
                    o.bad(format!("{}: accepted", show(v)));
                }
            }
            Res::Err(e) => {
                if !want.refuse {
                    o.bad(format!("{}: refused: {e}", show(v)));
                }
            }
            Res::Panic(p) => {
                o.bad(format!("{}: {p}", show(v)));
                std::mem::forget(w);
                return o;
            }
        }
    }
    if let Some(p) = ws_drop(w) {
        o.bad(format!("releasing the sheet: {p}"));
        return o;
    }
    let mut bytes = match xl.save_bytes(sc) {
        Res::Ok(b) => b,
        r => {
            o.bad(format!("save: {}", r.show()));
            return o;
        }
    };
    o.runs += 1;
    for round in 1..=2 {
        match Book::read(&bytes) {
            Err(e) => {
                o.bad(format!("save {round} is unreadable: {e}"));
                return o;
            }
            Ok(b) => {
                for p in &b.problems {
                    o.bad(format!("save {round}: {p}"));
                }
                let Some(s) = b.sheet(name) else {
                    o.bad(format!("save {round}: the sheet is gone"));
                    return o;
                };
                for (i, v) in vals.iter().enumerate() {
                    let (r, c) = at(i);
                    let g = s.grid.get(&(r, c as u32));
                    if !stored[i] {
                        if g.is_some_and(|g| !g.is_void()) {
                            o.bad(format!("save {round}: {}: refused but stored as {:?}", show(v), g.unwrap().kind));
                        }
                        continue;
                    }
                    let want = wanted_val(v);
                    let kind = g.map(|g| g.kind.clone()).unwrap_or(Kind::Blank);
                    o.states.push(h64(&(format!("{kind:?}"), round)));
                    if !want.any && !want.kinds.contains(&kind) && !want.kinds.is_empty() {
                        o.bad(format!("save {round}: {}: stored as {kind:?}", show(v)));
                    }
                    let f = g.and_then(|g| g.f.as_ref()).map(|f| f.0.as_str());
                    if f != v.f.as_deref() {
                        o.bad(format!("save {round}: {}: formula {f:?}", show(v)));
                    }
                }
                let extra = s.grid.iter().filter(|(k, c)| !c.is_void() && (k.0 - 1) * PER_ROW + k.1 - 1 >= vals.len() as u32).count();
                if extra > 0 {
                    o.bad(format!("save {round}: {extra} further cells appeared"));
                }
                o.outcome = h64(&(o.outcome, format!("{:?}", s.grid)));
            }
        }
        if round == 1 {
            let p = sc.put("xlsx", &bytes);
            let mut x = match open(Some(&p)) {
                Res::Ok(x) => x,
                r => {
                    let e = match r { Res::Err(e) => e, Res::Panic(p) => p, _ => String::new() };
                    o.bad(format!("the saved file does not open: {e}"));
                    return o;
                }
            };
            match x.get(name) {
                Res::Ok(w) => {
                    if let Some(p) = ws_drop(w) {
                        o.bad(p);
                        return o;
                    }
                }
                r => {
                    o.bad(format!("the saved sheet does not open: {}", got_show(r)));
                    return o;
                }
            }
            match x.save_bytes(sc) {
                Res::Ok(b) => bytes = b,
                r => {
                    o.bad(format!("saving again: {}", r.show()));
                    return o;
                }
            }
            o.runs += 1;
        }
    }
    o
}
fn got_show(r: Res<WorkSheet>) -> String {
    match r {
        Res::Ok(w) => {
            let _ = ws_drop(w);
            "ok".into()
        }
        Res::Err(e) => e,
        Res::Panic(p) => p,
    }
}
fn wanted_val(v: &Val) -> Want {
    let mut w = wanted(v.v.as_deref(), v.t);
    if let Some(f) = &v.f {
        if !representable(f) {
            return want(true, vec![]);
        }
        if f.is_empty() {
            w.refuse = true;
        }
    }
    w
}
fn show(v: &Val) -> String {
    format!("{:?} as {:?}{}", v.v, v.t, v.f.as_ref().map(|f| format!(" with formula {f:?}")).unwrap_or_default())
}
const TYPES: [T; 7] = [T::Auto, T::Number, T::Boolean, T::String, T::ShareString, T::InlineString, T::Error];
const ALPHA: &[&str] = &[
    "a", "Z", "0", "7", "-", "+", ".", ",", "e", "E", " ", "\t", "\n", "\r", "<", ">", "&", "\"", "'", "]", ";", "#", "%", "x", "\u{a0}", "\u{85}", "\u{2028}", "\u{feff}", "\u{fffd}", "\u{e9}", "e\u{301}",
    "\u{8ab2}", "\u{1f600}", "true", "inf", "nan", "]]>", "<!--", "&amp;", "&#10;",
];
const DIGITS: &[&str] = &["0", "1", "9", "-", "+", ".", "e", "E"];

fn string_at(alpha: &'static [&'static str], i: u64) -> String {
    seq_at(alpha.len() as u64, i).iter().map(|j| alpha[*j]).collect()
}
fn batches(name: &str, bound: &str, total: u64, size: u64, src: Option<Vec<u8>>, value: impl Fn(u64) -> Vec<Val> + Send + Sync + 'static) -> Space {
    let value = Arc::new(value);
    let v2 = value.clone();
    let n = total.div_ceil(size);
    Space::new(
        name,
        &format!("{bound}; {total} values in {n} workbooks"),
        n,
        move |i| {
            let a = v2(i * size).first().map(show).unwrap_or_default();
            let z = v2(((i + 1) * size).min(total) - 1).last().map(show).unwrap_or_default();
            format!("from {a} to {z}")
        },
        move |i, sc| {
            let vals: Vec<Val> = (i * size..((i + 1) * size).min(total)).flat_map(|j| value(j)).collect();
            write_all(&vals, src.as_deref(), sc)
        },
    )
}

pub fn check(deep: bool) -> Check {
    let mut spaces = vec![];
    let with_table = {
        let mut w = Wb::new(&["A"]);
        w.sst = Some(books::sst_rich());
        w.zip()
    };
    let k = ALPHA.len() as u64;
    for (i, t) in TYPES.iter().enumerate() {
        let d = if deep && matches!(t, T::Auto | T::ShareString | T::InlineString) { 4 } else { 3 };
        let total = seq_total(k, d);
        let t = *t;
        spaces.push(batches(
            &format!("strings-{t:?}"),
            &format!("every string of up to {d} of {k} pieces, as {t:?}"),
            total,
            400,
            if i % 2 == 0 { Some(with_table.clone()) } else { None },
            move |i| vec![val(&string_at(ALPHA, i), t)],
        ));
    }
    let k = DIGITS.len() as u64;
    let d = if deep { 7 } else { 6 };
    for t in [T::Auto, T::Number] {
        spaces.push(batches(&format!("numerals-{t:?}"), &format!("every string of up to {d} of the characters of numbers, as {t:?}"), seq_total(k, d), 800, None, move |i| vec![val(&string_at(DIGITS, i), t)]));
    }
    // every character there is
    for t in [T::Auto, T::ShareString, T::InlineString, T::String] {
        let total = if deep || t == T::ShareString { 0x110000u64 } else { 0x3100 };
        spaces.push(batches(
            &format!("characters-{t:?}"),
            "every character of Unicode within that range, also those XML cannot hold, between two letters",
            total,
            2048,
            None,
            move |i| char::from_u32(i as u32).map(|c| val(&format!("a{c}b"), t)).into_iter().collect(),
        ));
    }
    // characters at the start and the end, where white space is lost first
    {
        const EDGE: &[u32] = &[9, 10, 11, 12, 13, 32, 0x1c, 0x7f, 0x85, 0xa0, 0x1680, 0x2000, 0x200b, 0x2028, 0x2029, 0x202f, 0x3000, 0xfeff, 0xfffe, 0xffff, 0, 1, 0x1f];
        let n = EDGE.len() as u64;
        spaces.push(batches(
            "edges",
            "every pair of white space, control and odd characters around, before, after or instead of a letter, as every type",
            n * n * 4 * 7,
            400,
            None,
            move |i| {
                let mut d = Dig(i);
                let (a, b, form, t) = (d.take(EDGE.len()), d.take(EDGE.len()), d.take(4), d.take(7));
                let (a, b) = (char::from_u32(EDGE[a]).unwrap(), char::from_u32(EDGE[b]).unwrap());
                let s = match form {
                    0 => format!("{a}q{b}"),
                    1 => format!("{a}{b}q"),
                    2 => format!("q{a}{b}"),
                    _ => format!("{a}{b}"),
                };
                vec![val(&s, TYPES[t])]
            },
        ));
    }
    // values people write
    {
        const LIST: &[&str] = &[
            "", "0", "-0", "1", "1.0", "1.50", "0.1", "-1.5e-7", "1E+20", "1e308", "1e309", "-1e309", "1e-400", "4.9e-324", "1.7976931348623157e308", "1.7976931348623159e308", "12345678901234567890", "00012", "1_000",
            "1,000", "1 000", "١٢", "１２", "−5", "0x10", "0b1", "1f", "1d", "NaN", "nan", "NAN", "inf", "-inf", "+inf", "Inf", "infinity", "Infinity", "-Infinity", "1e", "e1", ".", "-", "+", "..", "1..2", "1.2.3", "--1", "+-1", "1-", "1e5.5",
            "true", "false", "TRUE", "False", "tRUE", "true ", " true", "yes", "on", "t", "f", "#N/A", "#DIV/0!", "#REF!", "#NAME?", "#NULL!", "#NUM!", "#VALUE!", "#N/A ", "N/A", "=1+1", "'5", "1/2", "1:00", "2020-01-02", "50%", "$5", "(5)",
            "  leading", "trailing  ", "two  inner", "line\nfeed", "carriage\rreturn", "both\r\nof them", "tab\there", "\n", "\r\n", " ", "<b>", "a&b", "&lt;", "&#65;", "<![CDATA[x]]>", "]]>", "<?xml?>", "\"q\"", "it's", "{}", "\\n", "%s", "𝟙",
            "\u{202e}rtl", "a\u{0}b", "\u{1}", "\u{b}", "\u{1f}", "\u{fffe}", "\u{ffff}", "\u{7f}", "\u{9f}", "🇩🇪", "ﬁ",
        ];
        const FORMS: &[Option<&str>] = &[None, Some("A1+1"), Some("\"a\"&\"<\""), Some(" SUM( A1:B2 ) "), Some("IF(A1<>\"\",A1,\"\")"), Some("\u{1}"), Some("a\nb"), Some("")];
        let n = LIST.len();
        let total = (n * 7 * FORMS.len()) as u64;
        for (name, src) in [("list", None), ("list-existing-table", Some(with_table.clone()))] {
            spaces.push(batches(name, "every value of a list of numbers, words, error values, markup and white space, as every type, with and without formulas", total, 300, src, move |i| {
                let mut d = Dig(i);
                let (v, t, f) = (d.take(n), d.take(7), d.take(FORMS.len()));
                vec![Val { v: Some(LIST[v].into()), t: TYPES[t], f: FORMS[f].map(|s| s.into()) }]
            }));
        }
        spaces.push(batches("formulas", "every formula text of up to 2 (thorough: 3) of 40 pieces, with a number, a text or nothing as its value", seq_total(ALPHA.len() as u64, if deep { 3 } else { 2 }) * 3, 400, None, move |i| {
            let s = string_at(ALPHA, i / 3);
            vec![match i % 3 {
                0 => Val { v: Some("1".into()), t: T::Number, f: Some(s) },
                1 => Val { v: Some(" t ".into()), t: T::String, f: Some(s) },
                _ => Val { v: None, t: T::Auto, f: Some(s) },
            }]
        }));
        // long text
        spaces.push(batches("long", "texts of 1 to 32767 characters and beyond, at buffer sizes and one off", 7 * 3 * 24, 24, None, move |i| {
            let mut d = Dig(i);
            let (t, c, l) = (d.take(7), d.take(3), d.take(24));
            let len = [1usize << (l / 3 * 2), 0][0] + [0, 1, 2][l % 3] - 1;
            let len = len.min(32767);
            vec![val(&["x", "&", "\u{8ab2}"][c].repeat(len), TYPES[t])]
        }));
    }
    Check {
        id: "C04",
        level: "exploration",
        rule: "a case is a workbook into which a batch of values is written, one per cell, saved, opened, the sheet opened and closed, and saved again; after each save every cell is read by an independent reader and held against the values its text and type allow; distinct by value and type",
        assumptions: vec![
            "numerals with a plus sign, without digits on one side of the point, with leading zeros, of more than 15 digits or underflowing may be stored as number or, with automatic typing, as text",
            "the escape notation _xHHHH_ of text is not judged",
            "text of the three text types counts as the same type",
        ],
        spaces,
    }
}
