pub(crate) use crate::drv::*;
pub(crate) use crate::engine::*;
pub(crate) use crate::fx::{self, Pkg, Wb};
pub(crate) use crate::opc::{self, Package};
pub(crate) use crate::wb::{self, Book, Cell, Kind};
pub(crate) use crate::xml::{self, Elem, Node};

/// Mixed-radix decoding of a case index.
pub struct Dig(pub u64);
impl Dig {
    pub fn take(&mut self, n: usize) -> usize {
        let r = (self.0 % n as u64) as usize;
        self.0 /= n as u64;
        r
    }
}
/// First difference of two elements by information content, as text.
pub fn diff(a: &Elem, b: &Elem) -> Option<String> {
    diff_at(a, b, &format!("/{}", a.name.local))
}
fn ws_only(s: &str) -> bool {
    s.chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r'))
}
fn diff_at(a: &Elem, b: &Elem, path: &str) -> Option<String> {
    if a.name != b.name {
        return Some(format!("{path}: element {{{}}}{} became {{{}}}{}", a.name.ns, a.name.local, b.name.ns, b.name.local));
    }
    for (k, v) in &a.attrs {
        match b.attrs.get(k) {
            None => return Some(format!("{path}: attribute {}={v:?} lost", k.local)),
            Some(w) if w != v => return Some(format!("{path}: attribute {}={v:?} became {w:?}", k.local)),
            _ => {}
        }
    }
    for (k, v) in &b.attrs {
        if !a.attrs.contains_key(k) {
            return Some(format!("{path}: attribute {}={v:?} appeared", k.local));
        }
    }
    let ae: Vec<&Elem> = a.elems().collect();
    let be: Vec<&Elem> = b.elems().collect();
    let (at, bt) = (a.text(), b.text());
    if ae.is_empty() && be.is_empty() {
        if at != bt {
            return Some(format!("{path}: text {at:?} became {bt:?}"));
        }
        return None;
    }
    if !(ws_only(&at) && ws_only(&bt)) {
        if ae.len() == be.len() {
            let (sa, sb) = (slots(a), slots(b));
            if let Some(i) = (0..sa.len()).find(|i| sa[*i] != sb[*i]) {
                return Some(format!("{path}: text {:?} (before element number {}) became {:?}", sa[i], i + 1, sb[i]));
            }
        } else if at != bt {
            return Some(format!("{path}: text {at:?} became {bt:?}"));
        }
    }
    for (i, x) in ae.iter().enumerate() {
        match be.get(i) {
            None => return Some(format!("{path}: element {} (number {}) lost", x.name.local, i + 1)),
            Some(y) => {
                if let Some(d) = diff_at(x, y, &format!("{path}/{}[{}]", x.name.local, i + 1)) {
                    return Some(d);
                }
            }
        }
    }
    if be.len() > ae.len() {
        return Some(format!("{path}: element {} appeared", be[ae.len()].name.local));
    }
    None
}
/// The text before each child element and after the last one.
fn slots(e: &Elem) -> Vec<String> {
    let mut v = vec![String::new()];
    for k in &e.kids {
        match k {
            Node::T(t) => v.last_mut().expect("slot").push_str(t),
            Node::E(_) => v.push(String::new()),
        }
    }
    for s in v.iter_mut() {
        if ws_only(s) {
            s.clear();
        }
    }
    v
}
/// Blanks the text of children with this local name, wherever they are.
pub fn blank(e: &mut Elem, local: &str) {
    for k in e.kids.iter_mut() {
        if let Node::E(c) = k {
            if c.name.local == local {
                c.kids.clear();
            } else {
                blank(c, local);
            }
        }
    }
}
/// What differs between two packages: parts, content types, relationships, content. XML is compared by
/// information content, relationships as sets, everything else by bytes. `modified`: the time of the
/// last modification in the core properties may differ.
pub fn pkg_diff(a: &Package, b: &Package, modified: bool) -> Vec<String> {
    let mut out = vec![];
    for n in a.parts.keys() {
        if !b.parts.contains_key(n) {
            out.push(format!("part {n} is missing"));
        }
    }
    for n in b.parts.keys() {
        if !a.parts.contains_key(n) {
            out.push(format!("part {n} is additional"));
        }
    }
    for (n, x) in &a.parts {
        let Some(y) = b.parts.get(n) else { continue };
        if n == "[Content_Types].xml" {
            continue;
        }
        if a.content_type(n) != b.content_type(n) {
            out.push(format!("content type of {n}: {:?} became {:?}", a.content_type(n), b.content_type(n)));
        }
        if x == y {
            continue;
        }
        if let Some(s) = opc::rels_source(n) {
            let key = |p: &Package| {
                p.rels(&s).map(|v| {
                    let mut v: Vec<_> = v.into_iter().map(|r| (r.id, r.ty, r.part, r.external)).collect();
                    v.sort();
                    v
                })
            };
            match (key(a), key(b)) {
                (Ok(x), Ok(y)) if x == y => continue,
                (x, y) => {
                    out.push(format!("relationships of {s:?} differ: {x:?} {y:?}").chars().take(300).collect());
                    continue;
                }
            }
        }
        if !a.is_xml_part(n) {
            out.push(format!("bytes of {n} differ"));
            continue;
        }
        match (xml::parse(x), xml::parse(y)) {
            (Ok(mut x), Ok(mut y)) => {
                if modified && a.content_type(n).is_some_and(|c| c.contains("core-properties")) {
                    blank(&mut x, "modified");
                    blank(&mut y, "modified");
                }
                if let Some(d) = diff(&x, &y) {
                    out.push(format!("{n}: {d}"));
                }
            }
            _ => out.push(format!("bytes of {n} differ")),
        }
    }
    out
}
