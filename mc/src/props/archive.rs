//! However a valid archive stores the same parts, the document says the same.
use super::c19::{solo, Hist, Ran, CLOCK};
use super::common::*;
use crate::books;
use crate::sim::*;
use crate::zipio::{crc32, read_zip};
use std::io::Write;
use std::sync::{Arc, OnceLock};

pub const FORMS: &[&str] = &[
    "deflated", "sizes behind the data", "64 bit sizes", "64 bit end of directory", "extra fields", "folders", "a comment", "comments of entries", "in reverse order", "from Unix with permissions", "without the UTF-8 mark", "dated",
];
fn le(v: &mut Vec<u8>, x: u64, n: usize) {
    v.extend_from_slice(&x.to_le_bytes()[..n]);
}
pub fn write(entries: &[(String, Vec<u8>)], f: u64) -> Vec<u8> {
    let has = |n: &str| f >> FORMS.iter().position(|x| *x == n).expect("form") & 1 == 1;
    let mut list: Vec<(String, Option<Vec<u8>>)> = entries.iter().map(|(n, d)| (n.clone(), Some(d.clone()))).collect();
    if has("folders") {
        let mut dirs = std::collections::BTreeSet::new();
        for (n, _) in entries {
            for (i, _) in n.match_indices('/') {
                dirs.insert(n[..=i].to_string());
            }
        }
        list.splice(0..0, dirs.into_iter().map(|d| (d, None)));
    }
    if has("in reverse order") {
        list.reverse();
    }
    let (mut out, mut cd) = (vec![], vec![]);
    let z64 = has("64 bit sizes");
    let n = list.len() as u64;
    for (name, data) in list {
        let off = out.len() as u64;
        let dir = data.is_none();
        let data = data.unwrap_or_default();
        let deflate = has("deflated") && !dir;
        let body = if deflate {
            let mut c = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::new(1 + (off % 9) as u32));
            c.write_all(&data).expect("deflate");
            c.finish().expect("deflate")
        } else {
            data.clone()
        };
        // a stored entry says its size in front
        let behind = has("sizes behind the data") && deflate;
        let crc = crc32(&data) as u64;
        let head = |v: &mut Vec<u8>, local: bool, extra: usize| {
            le(v, if z64 { 45 } else { 20 }, 2);
            le(v, (!has("without the UTF-8 mark") as u64) << 11 | (behind as u64) << 3, 2);
            le(v, if deflate { 8 } else { 0 }, 2);
            let (time, date) = if has("dated") { (0xbf7d, 0x5d9f) } else { (0, 0x21) };
            le(v, time, 2);
            le(v, date, 2);
            let zero = local && behind;
            le(v, if zero { 0 } else { crc }, 4);
            for s in [body.len(), data.len()] {
                le(v, if z64 && !dir { 0xffff_ffff } else if zero { 0 } else { s as u64 }, 4);
            }
            le(v, name.len() as u64, 2);
            le(v, extra as u64, 2);
        };
        let extra = |local: bool| {
            let mut v = vec![];
            if z64 && !dir {
                le(&mut v, 1, 2);
                le(&mut v, 16, 2);
                let zero = local && behind;
                le(&mut v, if zero { 0 } else { data.len() as u64 }, 8);
                le(&mut v, if zero { 0 } else { body.len() as u64 }, 8);
            }
            if has("extra fields") {
                // a time stamp, and what office applications reserve to grow in place
                v.extend_from_slice(&[0x55, 0x54, 5, 0, 1, 0x11, 0x22, 0x33, 0x44]);
                if local {
                    v.extend_from_slice(&[0x20, 0xa2, 8, 0, 0x28, 0xa0, 4, 0, 0, 0, 0, 0]);
                }
            }
            v
        };
        out.extend_from_slice(b"PK\x03\x04");
        let x = extra(true);
        head(&mut out, true, x.len());
        out.extend_from_slice(name.as_bytes());
        out.extend_from_slice(&x);
        out.extend_from_slice(&body);
        if behind {
            out.extend_from_slice(b"PK\x07\x08");
            le(&mut out, crc, 4);
            let w = if z64 { 8 } else { 4 };
            le(&mut out, body.len() as u64, w);
            le(&mut out, data.len() as u64, w);
        }
        cd.extend_from_slice(b"PK\x01\x02");
        let unix = has("from Unix with permissions");
        le(&mut cd, if unix { 3 << 8 | 45 } else { 20 }, 2);
        let x = extra(false);
        head(&mut cd, false, x.len());
        let note: &[u8] = if has("comments of entries") { b"a note PK\x01\x02" } else { b"" };
        le(&mut cd, note.len() as u64, 2);
        le(&mut cd, 0, 2);
        le(&mut cd, 0, 2);
        le(&mut cd, if unix { (if dir { 0o40755 } else { 0o100644 }) << 16 | (dir as u64) << 4 } else { (dir as u64) << 4 }, 4);
        le(&mut cd, off, 4);
        cd.extend_from_slice(name.as_bytes());
        cd.extend_from_slice(&x);
        cd.extend_from_slice(note);
    }
    let (at, len) = (out.len() as u64, cd.len() as u64);
    out.append(&mut cd);
    let e64 = has("64 bit end of directory");
    if e64 {
        let here = out.len() as u64;
        out.extend_from_slice(b"PK\x06\x06");
        le(&mut out, 44, 8);
        le(&mut out, 45, 2);
        le(&mut out, 45, 2);
        le(&mut out, 0, 8);
        le(&mut out, n, 8);
        le(&mut out, n, 8);
        le(&mut out, len, 8);
        le(&mut out, at, 8);
        out.extend_from_slice(b"PK\x06\x07");
        le(&mut out, 0, 4);
        le(&mut out, here, 8);
        le(&mut out, 1, 4);
    }
    out.extend_from_slice(b"PK\x05\x06");
    le(&mut out, 0, 4);
    le(&mut out, if e64 { 0xffff } else { n }, 2);
    le(&mut out, if e64 { 0xffff } else { n }, 2);
    le(&mut out, if e64 { 0xffff_ffff } else { len }, 4);
    le(&mut out, if e64 { 0xffff_ffff } else { at }, 4);
    let note: &[u8] = if has("a comment") { b"made by x, PK\x05 and so on" } else { b"" };
    le(&mut out, note.len() as u64, 2);
    out.extend_from_slice(note);
    out
}
fn name(f: u64) -> String {
    let v: Vec<&str> = FORMS.iter().enumerate().filter(|(i, _)| f >> i & 1 == 1).map(|x| *x.1).collect();
    if v.is_empty() { "plain".into() } else { v.join(", ") }
}
pub fn space() -> Space {
    type Src = (&'static str, DocKind, Vec<(String, Vec<u8>)>, Vec<Op>);
    let dec = |b: &[u8]| read_zip(b).expect("harness: source").into_iter().map(|e| (e.name, e.data)).collect::<Vec<_>>();
    let srcs: Vec<Src> = vec![
        ("rich workbook", DocKind::Excel, dec(&books::rich().zip()), vec![Op::On("A", Act::Put(2, 2, vec![num("5"), txt("alpha")], false)), Op::AddDrop(None), Op::DelName("C")]),
        ("plain workbook", DocKind::Excel, dec(&books::plain().zip()), vec![]),
        ("text document", DocKind::Word, dec(&fx::doc_pkg(true, Some(fx::CORE)).zip()), vec![]),
        ("presentation", DocKind::Ppt, dec(&fx::doc_pkg(false, Some(fx::CORE)).zip()), vec![]),
    ];
    let names: Vec<&str> = srcs.iter().map(|s| s.0).collect();
    let k = srcs.len();
    let base: Arc<Vec<OnceLock<Ran>>> = Arc::new((0..k).map(|_| OnceLock::new()).collect());
    Space::new(
        "archives",
        &format!("{k} documents in archives with every set of {} features of the format, against a plain archive", FORMS.len()),
        (k as u64) << FORMS.len(),
        move |i| format!("{} in an archive: {}", names[i as usize % k], name(i / k as u64)),
        move |i, sc| {
            let mut out = Out::default();
            let s = &srcs[i as usize % k];
            let run = |z: Vec<u8>, dir: &str| solo(&Hist { name: "", kind: s.1, src: Some(z), ops: s.3.clone() }, dir, 1, CLOCK, false).remove(0);
            let want = base[i as usize % k].get_or_init(|| run(write(&s.2, 0), &sc.file("base")));
            let got = run(write(&s.2, i / k as u64), &sc.file("twin"));
            out.runs += 1;
            out.transitions += s.3.len() as u64 + 2;
            if want.saved.is_none() {
                out.bad(format!("the plain archive is not saved: {:?}", want.log));
                return out;
            }
            super::spell::judge(want, &got, Package::read, &mut out);
            out
        },
    )
}
