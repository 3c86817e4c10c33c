use super::common::*;
use draviavemal_openxml_office::spreadsheet_2007::models::{CellDataType as T, CellProperties, ColumnProperties, RowProperties};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const MAXR: u64 = 1048576;
const MAXC: u64 = 16384;

/// A way to address something.
#[derive(Clone, Debug)]
pub enum Ad {
    Idx(u32, u16),
    Ref(String),
    ColIdx(u16),
    ColRef(String),
    Row(u32),
    /// cells from an index on
    Run(u32, u16, u32),
    RunRef(String, u32),
}
#[derive(PartialEq, Debug)]
enum Place {
    Bad,
    /// at this place
    At(u64, u64),
    /// refused or at this place
    Either(u64, u64),
}
/// Reads a cell reference by the rules of the format, independent of the library.
fn place(s: &str) -> Place {
    let b = s.as_bytes();
    let n = b.iter().take_while(|c| c.is_ascii_alphabetic()).count();
    let d = &b[n..];
    if n == 0 || d.is_empty() || !d.iter().all(|c| c.is_ascii_digit()) {
        return Place::Bad;
    }
    let mut c = 0u64;
    for x in &b[..n] {
        c = (c * 26 + (x.to_ascii_uppercase() - b'A') as u64 + 1).min(1 << 40);
    }
    let mut r = 0u64;
    for x in d {
        r = (r * 10 + (x - b'0') as u64).min(1 << 40);
    }
    if c > MAXC || r == 0 || r > MAXR {
        return Place::Bad;
    }
    let strict = b[..n].iter().all(|c| c.is_ascii_uppercase()) && d[0] != b'0';
    if strict { Place::At(r, c) } else { Place::Either(r, c) }
}
fn col_place(s: &str) -> Place {
    let letters = !s.is_empty() && s.bytes().all(|c| c.is_ascii_alphabetic());
    if letters {
        return match place(&format!("{s}1")) {
            Place::At(_, c) => Place::At(0, c),
            Place::Either(_, c) => Place::Either(0, c),
            Place::Bad => Place::Bad,
        };
    }
    match place(s) {
        Place::At(_, c) => Place::At(0, c),
        Place::Either(_, c) => Place::Either(0, c),
        Place::Bad => Place::Bad,
    }
}
fn num(n: usize) -> CellProperties {
    let mut c = CellProperties::default();
    c.value = Some(n.to_string());
    c.data_type = T::Number;
    c
}
/// Applies every address in order, each with its own number, then holds the saved sheet against the
/// grid, the rows and the columns that were addressed.
fn apply(ads: &[Ad], sc: &Scratch) -> Out {
    let mut o = Out { nontrivial: true, ..Default::default() };
    let Res::Ok(mut xl) = open(None) else { panic!("harness: no workbook") };
    let Res::Ok(mut w) = xl.add(Some("A")) else { panic!("harness: no sheet") };
    let mut grid: BTreeMap<(u64, u64), usize> = BTreeMap::new();
    let mut rows: BTreeSet<u64> = BTreeSet::new();
    let mut cols: BTreeMap<u64, usize> = BTreeMap::new();
    for (i, a) in ads.iter().enumerate() {
        o.transitions += 1;
        let n = i + 1;
        let (res, want): (Res<()>, Place) = match a {
            Ad::Idx(r, c) => (
                ws_call(&mut w, |w| w.set_row_value_index_mut(*r, *c, vec![num(n)])),
                if *r == 0 || *c == 0 || *r as u64 > MAXR || *c as u64 > MAXC { Place::Bad } else { Place::At(*r as u64, *c as u64) },
            ),
            Ad::Ref(s) => (ws_call(&mut w, |w| w.set_row_value_ref_mut(s, vec![num(n)])), place(s)),
            Ad::Run(r, c, k) => (
                ws_call(&mut w, |w| w.set_row_value_index_mut(*r, *c, (0..*k).map(|_| num(n)).collect())),
                if *r == 0 || *c == 0 || *r as u64 > MAXR || *c as u64 > MAXC || *c as u64 + *k as u64 - 1 > MAXC { Place::Bad } else { Place::At(*r as u64, *c as u64) },
            ),
            Ad::RunRef(s, k) => (
                ws_call(&mut w, |w| w.set_row_value_ref_mut(s, (0..*k).map(|_| num(n)).collect())),
                match place(s) {
                    Place::At(_, c) | Place::Either(_, c) if c + *k as u64 - 1 > MAXC => Place::Bad,
                    p => p,
                },
            ),
            Ad::Row(r) => {
                let mut p = RowProperties::default();
                p.hidden = Some(true);
                (
                    ws_call(&mut w, |w| w.set_row_index_properties_mut(r, p)),
                    if *r == 0 || *r as u64 > MAXR { Place::Bad } else { Place::At(*r as u64, 0) },
                )
            }
            Ad::ColIdx(_) | Ad::ColRef(_) => {
                let mut p = ColumnProperties::default();
                p.width = Some(n as f32);
                match a {
                    Ad::ColIdx(c) => (
                        ws_call(&mut w, |w| w.set_column_index_properties_mut(c, Some(p))),
                        if *c == 0 || *c as u64 > MAXC { Place::Bad } else { Place::At(0, *c as u64) },
                    ),
                    Ad::ColRef(s) => (ws_call(&mut w, |w| w.set_column_ref_properties_mut(s, Some(p))), col_place(s)),
                    _ => unreachable!(),
                }
            }
        };
        let at = match (&res, &want) {
            (Res::Panic(p), _) => {
                o.bad(format!("{a:?}: {p}"));
                std::mem::forget(w);
                return o;
            }
            (Res::Ok(()), Place::Bad) => {
                o.bad(format!("{a:?}: accepted"));
                continue;
            }
            (Res::Err(e), Place::At(..)) => {
                o.bad(format!("{a:?}: refused: {e}"));
                continue;
            }
            (Res::Err(_), _) => continue,
            (Res::Ok(()), Place::At(r, c) | Place::Either(r, c)) => (*r, *c),
        };
        match a {
            Ad::Idx(..) | Ad::Ref(_) => drop(grid.insert(at, n)),
            Ad::Run(_, _, k) | Ad::RunRef(_, k) => {
                for j in 0..*k {
                    grid.insert((at.0, at.1 + j as u64), n);
                }
            }
            Ad::Row(_) => drop(rows.insert(at.0)),
            Ad::ColIdx(_) | Ad::ColRef(_) => drop(cols.insert(at.1, n)),
        }
    }
    if let Some(p) = ws_drop(w) {
        o.bad(format!("releasing the sheet: {p}"));
        return o;
    }
    let b = match xl.save_bytes(sc) {
        Res::Ok(b) => b,
        r => {
            o.bad(format!("save: {}", r.show()));
            return o;
        }
    };
    o.runs = 1;
    let b = match Book::read(&b) {
        Ok(b) => b,
        Err(e) => {
            o.bad(format!("the saved file is unreadable: {e}"));
            return o;
        }
    };
    for p in &b.problems {
        o.bad(p.clone());
    }
    let Some(s) = b.sheet("A") else {
        o.bad("the sheet is gone");
        return o;
    };
    for p in &s.order {
        o.bad(p.clone());
    }
    for (k, n) in &grid {
        let g = s.grid.get(&(k.0 as u32, k.1 as u32)).map(|c| c.kind.clone());
        if g != Some(Kind::Num(n.to_string())) {
            o.bad(format!("{:?}: {} holds {g:?} instead of {n}", ads[*n - 1], wb::cref(k.0 as u32, k.1 as u32)));
        }
    }
    for (k, c) in &s.grid {
        if !c.is_void() && !grid.contains_key(&(k.0 as u64, k.1 as u64)) {
            let by = if let Kind::Num(n) = &c.kind { n.parse::<usize>().ok().and_then(|n| ads.get(n - 1)) } else { None };
            o.bad(format!("{} holds {:?}, written as {by:?}", wb::cref(k.0, k.1), c.kind));
        }
    }
    let got: BTreeSet<u64> = s.rows.iter().filter(|(_, r)| r.hidden).map(|(k, _)| *k as u64).collect();
    if got != rows {
        o.bad(format!("hidden rows {:?} instead of {:?}", got.difference(&rows).take(3).collect::<Vec<_>>(), rows.difference(&got).take(3).collect::<Vec<_>>()));
    }
    let got: BTreeMap<u64, String> = s.col_ranges.iter().flat_map(|(a, z, c)| (*a..=*z.min(&17000)).map(|i| (i as u64, c.width.clone().unwrap_or_default()))).collect();
    let want: BTreeMap<u64, String> = cols.iter().map(|(c, n)| (*c, n.to_string())).collect();
    if got != want {
        let d = want.iter().find(|(k, v)| got.get(k) != Some(v)).map(|(k, v)| format!("column {k}: {:?} instead of {v}", got.get(k)));
        let e = got.iter().find(|(k, _)| !want.contains_key(k)).map(|(k, _)| format!("column {k} appeared"));
        o.bad(d.or(e).unwrap_or_default());
    }
    o.outcome = h64(&format!("{grid:?}{rows:?}{cols:?}"));
    o.states.extend(grid.keys().map(h64));
    o.states.extend(cols.keys().map(|c| h64(&("col", c))));
    o.states.extend(rows.iter().map(|c| h64(&("row", c))));
    o
}
fn batches(name: &str, bound: &str, total: u64, size: u64, ad: impl Fn(u64) -> Vec<Ad> + Send + Sync + 'static) -> Space {
    let ad = Arc::new(ad);
    let a2 = ad.clone();
    let n = total.div_ceil(size);
    Space::new(
        name,
        &format!("{bound}; {total} addresses in {n} workbooks"),
        n,
        move |i| format!("from {:?} to {:?}", a2(i * size).first(), a2(((i + 1) * size).min(total) - 1).last()),
        move |i, sc| {
            let v: Vec<Ad> = (i * size..((i + 1) * size).min(total)).flat_map(|j| ad(j)).collect();
            apply(&v, sc)
        },
    )
}
const ALPHA: &[&str] = &["A", "B", "Z", "X", "F", "D", "E", "a", "z", "0", "1", "9", "$", " ", ":", "-", "+", ".", "!", "@", "[", "`", "{", "/", "\u{e9}", "\u{ff21}", "\u{663}", "\u{212a}", "\t", "R", "C"];

pub fn check(deep: bool) -> Check {
    let mut spaces = vec![];
    // all columns, addressed in every way, at the first, the last and further rows
    spaces.push(batches("columns", "all 16384 columns by reference and by index in four rows, as column by index, by letters and by reference", MAXC, 64, move |i| {
        let c = (i + 1) as u16;
        let n = wb::col_name(c as u32);
        vec![
            Ad::Ref(format!("{n}1")),
            Ad::Idx(2, c),
            Ad::Ref(format!("{n}1048576")),
            Ad::Idx(1048575, c),
            match i % 3 {
                0 => Ad::ColIdx(c),
                1 => Ad::ColRef(n.clone()),
                _ => Ad::ColRef(format!("{n}7")),
            },
        ]
    }));
    // all rows
    {
        let step = if deep { 1u64 } else { 7 };
        let near = move |i: u64| -> u64 { (i * step).min(MAXR - 1) + 1 };
        spaces.push(batches("rows", if deep { "all 1048576 rows by index and by reference" } else { "every 7th of the rows by index and by reference" }, MAXR.div_ceil(step), 1024, move |i| {
            let r = near(i) as u32;
            let c = 1 + (r % 3) as u16 * 700;
            match i % 3 {
                0 => vec![Ad::Idx(r, c)],
                1 => vec![Ad::Ref(wb::cref(r, c as u32))],
                _ => vec![Ad::Row(r), Ad::Ref(wb::cref(r, 16384))],
            }
        }));
    }
    // numbers at and around every edge
    {
        let mut rs: Vec<u32> = vec![0, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 2097152, 4294967];
        let mut cs: Vec<u16> = vec![0, u16::MAX, u16::MAX - 1, 1 << 15, (1 << 15) - 1, 20000];
        for k in 0..=20u32 {
            for d in [-1i64, 0, 1] {
                let v = (1i64 << k) + d;
                rs.push(v as u32);
                if v < 65536 {
                    cs.push(v as u16);
                }
            }
        }
        for k in [10i64, 100, 1000, 10000, 100000, 1000000] {
            for d in [-1, 0, 1] {
                rs.push((k + d) as u32);
            }
        }
        for k in [26i64, 52, 676, 702, 728, 1378, 16250, 16354, 18278] {
            for d in [-1, 0, 1] {
                cs.push((k + d) as u16);
            }
        }
        rs.sort();
        rs.dedup();
        cs.sort();
        cs.dedup();
        let (nr, nc) = (rs.len() as u64, cs.len() as u64);
        let (r2, c2) = (rs.clone(), cs.clone());
        spaces.push(batches("edges", "every pair of row and column numbers at and next to the powers of two, ten and twenty-six and beyond the grid, by index and by reference", nr * nc, 200, move |i| {
            let (r, c) = (r2[(i % nr) as usize], c2[(i / nr) as usize]);
            let name = if c == 0 { String::new() } else { wb::col_name(c as u32) };
            vec![Ad::Idx(r, c), Ad::Ref(format!("{name}{r}"))]
        }));
        let (r2, c2) = (rs.clone(), cs.clone());
        spaces.push(batches("edges-properties", "the same numbers for row and column properties", nr + nc, 40, move |i| {
            if i < nr {
                vec![Ad::Row(r2[i as usize])]
            } else {
                let c = c2[(i - nr) as usize];
                vec![Ad::ColIdx(c), Ad::ColRef(if c == 0 { "0".into() } else { wb::col_name(c as u32) }), Ad::ColIdx(c.wrapping_add(1))]
            }
        }));
        // runs of cells that reach or leave the last column
        let starts: Vec<u16> = vec![0, 1, 2, 16380, 16381, 16382, 16383, 16384, 16385, 32768, 65530, 65535];
        let lens: Vec<u32> = vec![1, 2, 3, 4, 5, 6, 100, 16383, 16384, 16385, 65536];
        let (ns, nl) = (starts.len() as u64, lens.len() as u64);
        spaces.push(batches("runs", "runs of cells from and of lengths around the last column, by index and by reference", ns * nl * 3, 6, move |i| {
            let mut d = Dig(i);
            let (s, l, r) = (starts[d.take(ns as usize)], lens[d.take(nl as usize)], [1u32, 1048576, 1048577][d.take(3)]);
            let mut v = vec![Ad::Run(r, s, l)];
            if s > 0 {
                v.push(Ad::RunRef(format!("{}{}", wb::col_name(s as u32), r.wrapping_add(1)), l));
            }
            v
        }));
    }
    // every short text as a reference
    let k = ALPHA.len() as u64;
    let d = if deep { 5 } else { 4 };
    spaces.push(batches("texts", &format!("every text of up to {d} of {k} characters as the reference of a cell"), seq_total(k, d), 4000, move |i| vec![Ad::Ref(seq_at(k, i).iter().map(|j| ALPHA[*j]).collect())]));
    let d = if deep { 4 } else { 3 };
    spaces.push(batches("column-texts", &format!("every text of up to {d} of {k} characters as the reference of a column"), seq_total(k, d), 4000, move |i| vec![Ad::ColRef(seq_at(k, i).iter().map(|j| ALPHA[*j]).collect())]));
    // long ones
    {
        const L: &[&str] = &["", "A", "Z", "AA", "ZZ", "AAA", "XFC", "XFD", "XFE", "XGA", "YAA", "ZZZ", "AAAA", "ZZZZZ", "AAAAAAAA", "ZZZZZZZZZZZZZZ", "FXSHRXX", "CRPXNLSKVLJFHH", "a", "xfd", "Xfd", "$A", "A$", "A B", "\u{c0}", "R", "RC"];
        const D: &[&str] = &["", "0", "1", "00", "01", "0000000001", "1048575", "1048576", "1048577", "1048580", "9999999", "4294967295", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999999", "-1", "+1", "1.0", "1e3", "1 ", "1:B2", "1#", "$1", "C1", "1A"];
        let (nl, nd) = (L.len() as u64, D.len() as u64);
        spaces.push(batches("long-texts", "every pair of a column text and a row text from lists up to and far beyond the grid, with white space or markup before or after", nl * nd * 5, 100, move |i| {
            let mut d = Dig(i);
            let s = format!("{}{}", L[d.take(L.len())], D[d.take(D.len())]);
            let s = match d.0 {
                0 => s,
                1 => format!(" {s}"),
                2 => format!("{s} "),
                3 => format!("Sheet1!{s}"),
                _ => format!("{s}\n"),
            };
            vec![Ad::Ref(s.clone()), Ad::ColRef(s)]
        }));
    }
    // good and bad ones in turn: every sequence
    {
        let ops: Vec<Ad> = vec![
            Ad::Idx(1, 1),
            Ad::Ref("A1".into()),
            Ad::Ref("B2".into()),
            Ad::Ref("XFD1048576".into()),
            Ad::Ref("XFE1".into()),
            Ad::Ref("A0".into()),
            Ad::Ref("AAAAAAAAAAAA1".into()),
            Ad::Idx(0, 1),
            Ad::Idx(1, 0),
            Ad::Idx(1048577, 1),
            Ad::Run(1, 16384, 2),
            Ad::ColIdx(16384),
            Ad::ColIdx(0),
            Ad::ColRef("B".into()),
            Ad::Row(1048576),
            Ad::Row(0),
        ];
        let k = ops.len() as u64;
        let d = if deep { 4 } else { 3 };
        let o2 = ops.clone();
        spaces.push(Space::new(
            "sequences",
            &format!("every sequence of up to {d} of {k} good and bad addresses"),
            seq_total(k, d),
            move |i| format!("{:?}", seq_at(k, i).iter().map(|j| &o2[*j]).collect::<Vec<_>>()),
            move |i, sc| apply(&seq_at(k, i).iter().map(|j| ops[*j].clone()).collect::<Vec<_>>(), sc),
        ));
    }
    Check {
        id: "C05",
        level: "exploration",
        rule: "a case is a workbook in which a batch of addresses is used in order, each with its own number; after the save every cell, row and column of the sheet is read by an independent reader and held against where the addresses lead by the rules of the format; distinct by address",
        assumptions: vec!["references in lower case or with leading zeros are either refused or mean the same cell", "a column may be named by its letters or by a cell of it"],
        spaces,
    }
}
