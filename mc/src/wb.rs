//! Independent semantic reader of a workbook package.
use crate::opc::*;
use crate::xml::{self, Elem};
use std::collections::{BTreeMap, BTreeSet};

pub const X: &str = crate::fx::X;
pub const RNS: &str = crate::fx::R;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Blank,
    Num(String),
    Bool(bool),
    Err(String),
    Text(String),
    Rich(String),
    Other(String, String),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Cell {
    pub kind: Kind,
    /// text and attributes of the formula
    pub f: Option<(String, Vec<(String, String)>)>,
    pub s: u32,
    /// further attributes and child elements
    pub extra: Vec<String>,
}
impl Cell {
    pub fn is_void(&self) -> bool {
        self.kind == Kind::Blank && self.f.is_none() && self.s == 0 && self.extra.is_empty()
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct Row {
    pub ht: Option<String>,
    pub custom_ht: bool,
    pub hidden: bool,
    pub style: Option<u32>,
    pub thick_top: bool,
    pub thick_bot: bool,
    pub outline: u32,
    pub collapsed: bool,
    pub ph: bool,
    pub extra: Vec<(String, String)>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct Col {
    pub width: Option<String>,
    pub custom_w: bool,
    pub hidden: bool,
    pub style: u32,
    pub best_fit: bool,
    pub outline: u32,
    pub collapsed: bool,
    pub extra: Vec<(String, String)>,
}
#[derive(Clone, Debug)]
pub struct Sheet {
    pub name: String,
    pub id: String,
    pub state: String,
    pub rid: String,
    pub part: String,
    pub xml: Elem,
    pub grid: BTreeMap<(u32, u32), Cell>,
    pub rows: BTreeMap<u32, Row>,
    pub col_ranges: Vec<(u32, u32, Col)>,
    pub dimension: Option<String>,
    /// bounding box of the c elements
    pub bbox: Option<(u32, u32, u32, u32)>,
    /// order and uniqueness defects
    pub order: Vec<String>,
    /// rows whose spans do not cover their cells
    pub spans: Vec<String>,
}
impl Sheet {
    pub fn cols(&self) -> BTreeMap<u32, Col> {
        let mut m = BTreeMap::new();
        for (a, b, c) in &self.col_ranges {
            for i in *a..=*b {
                m.insert(i, c.clone());
            }
        }
        m
    }
}
#[derive(Clone, Debug)]
pub struct Calc {
    pub r: String,
    pub i: Option<String>,
    pub sheet: Option<String>,
    pub attrs: Vec<(String, String)>,
}
#[derive(Clone, Debug)]
pub struct Book {
    pub pkg: Package,
    pub wb_part: String,
    pub wb: Elem,
    pub sheets: Vec<Sheet>,
    pub views: Vec<BTreeMap<String, String>>,
    pub sst: Vec<Elem>,
    pub sst_part: Option<String>,
    pub calc: Option<Vec<Calc>>,
    pub styles: Option<Elem>,
    /// structural defects of the workbook
    pub problems: Vec<String>,
}

pub fn flag(s: Option<&str>, default: bool) -> bool {
    match s {
        Some("1") | Some("true") => true,
        Some("0") | Some("false") => false,
        _ => default,
    }
}
pub fn col_name(mut c: u32) -> String {
    let mut s = vec![];
    while c > 0 {
        let r = (c - 1) % 26;
        s.push(b'A' + r as u8);
        c = (c - 1) / 26;
    }
    s.reverse();
    String::from_utf8(s).unwrap()
}
pub fn cref(r: u32, c: u32) -> String {
    format!("{}{}", col_name(c), r)
}
/// A1 reference, upper case, within the grid
pub fn parse_ref(s: &str) -> Option<(u32, u32)> {
    let n = s.bytes().take_while(|b| b.is_ascii_uppercase()).count();
    if n == 0 || n > 3 {
        return None;
    }
    let mut c = 0u32;
    for b in s.bytes().take(n) {
        c = c * 26 + (b - b'A' + 1) as u32;
    }
    let d = &s[n..];
    if d.is_empty() || d.len() > 7 || !d.bytes().all(|b| b.is_ascii_digit()) || d.starts_with('0') {
        return None;
    }
    let r: u32 = d.parse().ok()?;
    if c > 16384 || r > 1048576 {
        return None;
    }
    Some((r, c))
}

fn si_plain(e: &Elem) -> Option<String> {
    // plain: nothing but t
    let mut t = None;
    for k in e.elems() {
        if k.local() == "t" && t.is_none() {
            t = Some(t_text(k));
        } else {
            return None;
        }
    }
    Some(t.unwrap_or_default())
}
/// Text of a t element as an application reads it: without xml:space="preserve" surrounding white
/// space is not guaranteed to survive, so it is dropped.
pub fn t_text(t: &Elem) -> String {
    let s = t.text();
    if t.at_ns(xml::XMLNS, "space") == Some("preserve") {
        s
    } else {
        s.trim_matches(|c| matches!(c, ' ' | '\t' | '\n' | '\r')).to_string()
    }
}
pub fn si_kind(e: &Elem) -> Kind {
    match si_plain(e) {
        Some(t) => Kind::Text(t),
        None => Kind::Rich(rich_canon(e)),
    }
}
fn rich_canon(e: &Elem) -> String {
    // text trimmed where it is not preserved
    fn go(e: &Elem) -> Elem {
        let mut o = e.clone();
        if e.local() == "t" {
            o.kids = vec![xml::Node::T(t_text(e))];
            o.attrs.retain(|k, _| !(k.ns == xml::XMLNS && k.local == "space"));
            return o;
        }
        o.kids = e
            .kids
            .iter()
            .filter_map(|k| match k {
                xml::Node::E(x) => Some(xml::Node::E(go(x))),
                xml::Node::T(_) => None,
            })
            .collect();
        o
    }
    let mut g = go(e);
    g.name.local = "si".into();
    g.canon()
}

pub fn read_cell(e: &Elem, sst: &[Elem], problems: &mut Vec<String>, at: &str) -> Cell {
    let t = e.at("t").unwrap_or("n");
    let v = e.kid("v").map(|v| v.text());
    let mut extra: Vec<String> = vec![];
    let mut f = None;
    let mut is = None;
    for k in e.elems() {
        match k.local() {
            "v" => {}
            "f" => {
                f = Some((
                    k.text(),
                    k.attrs.iter().map(|(a, b)| (a.local.clone(), b.clone())).collect::<Vec<_>>(),
                ))
            }
            "is" => is = Some(k),
            _ => extra.push(k.canon()),
        }
    }
    for (k, v) in &e.attrs {
        if !(k.ns.is_empty() && matches!(k.local.as_str(), "r" | "s" | "t")) {
            extra.push(format!("{}={}", k.local, v));
        }
    }
    let s = match e.at("s") {
        None => 0,
        Some(x) => x.parse().unwrap_or_else(|_| {
            problems.push(format!("cell {at}: s={x:?}"));
            0
        }),
    };
    let kind = match (t, v) {
        ("inlineStr", v) => match (is, v) {
            (Some(is), None) => si_kind(is),
            (None, None) => Kind::Blank,
            (_, Some(v)) => Kind::Other("inlineStr".into(), v),
        },
        ("s", Some(v)) => match v.parse::<usize>().ok().and_then(|i| sst.get(i)) {
            Some(e) => si_kind(e),
            None => {
                problems.push(format!("cell {at} refers to shared string {v:?} of {}", sst.len()));
                Kind::Other("s".into(), v)
            }
        },
        ("s", None) => {
            problems.push(format!("cell {at} is a shared string without index"));
            Kind::Other("s".into(), String::new())
        }
        ("str", v) => match v {
            Some(v) => Kind::Text(v),
            None if f.is_some() => Kind::Text(String::new()),
            None => Kind::Blank,
        },
        ("b", Some(v)) => match v.as_str() {
            "0" | "false" => Kind::Bool(false),
            "1" | "true" => Kind::Bool(true),
            _ => Kind::Other("b".into(), v),
        },
        ("e", Some(v)) => Kind::Err(v),
        ("n", Some(v)) => Kind::Num(v),
        ("n" | "b" | "e", None) => Kind::Blank,
        (t, v) => Kind::Other(t.into(), v.unwrap_or_default()),
    };
    Cell { kind, f, s, extra }
}

fn read_sheet(e: &Elem, sst: &[Elem], o: &mut Sheet, problems: &mut Vec<String>) {
    o.dimension = e.kid("dimension").and_then(|d| d.at("ref")).map(|s| s.to_string());
    let n_sd = e.elems().filter(|k| k.local() == "sheetData").count();
    if n_sd != 1 {
        o.order.push(format!("{n_sd} sheetData elements"));
    }
    if let Some(cols) = e.kid("cols") {
        for c in cols.elems() {
            let a = c.at("min").and_then(|s| s.parse().ok()).unwrap_or(0);
            let b = c.at("max").and_then(|s| s.parse().ok()).unwrap_or(0);
            let mut k = Col {
                width: c.at("width").map(num_text),
                custom_w: flag(c.at("customWidth"), false),
                hidden: flag(c.at("hidden"), false),
                style: c.at("style").and_then(|s| s.parse().ok()).unwrap_or(0),
                best_fit: flag(c.at("bestFit"), false),
                outline: c.at("outlineLevel").and_then(|s| s.parse().ok()).unwrap_or(0),
                collapsed: flag(c.at("collapsed"), false),
                extra: vec![],
            };
            for (n, v) in &c.attrs {
                if !matches!(n.local.as_str(), "min" | "max" | "width" | "customWidth" | "hidden" | "style" | "bestFit" | "outlineLevel" | "collapsed") {
                    k.extra.push((n.local.clone(), v.clone()));
                }
            }
            o.col_ranges.push((a, b, k));
        }
    }
    let Some(sd) = e.kid("sheetData") else { return };
    let mut last_r = 0u32;
    for r in sd.elems() {
        if r.local() != "row" {
            o.order.push(format!("{} in sheetData", r.local()));
            continue;
        }
        let rn = match r.at("r") {
            None => last_r + 1,
            Some(s) => match s.parse::<u32>() {
                Ok(n) if (1..=1048576).contains(&n) => n,
                _ => {
                    o.order.push(format!("row number {s:?}"));
                    continue;
                }
            },
        };
        if rn <= last_r {
            o.order.push(format!("row {rn} after row {last_r}"));
        }
        last_r = rn;
        let mut row = Row {
            ht: r.at("ht").map(num_text),
            custom_ht: flag(r.at("customHeight"), false),
            hidden: flag(r.at("hidden"), false),
            style: if flag(r.at("customFormat"), false) { Some(r.at("s").and_then(|s| s.parse().ok()).unwrap_or(0)) } else { None },
            thick_top: flag(r.at("thickTop"), false),
            thick_bot: flag(r.at("thickBot"), false),
            outline: r.at("outlineLevel").and_then(|s| s.parse().ok()).unwrap_or(0),
            collapsed: flag(r.at("collapsed"), false),
            ph: flag(r.at("ph"), false),
            extra: vec![],
        };
        for (n, v) in &r.attrs {
            if !matches!(n.local.as_str(), "r" | "spans" | "s" | "customFormat" | "ht" | "customHeight" | "hidden" | "thickTop" | "thickBot" | "outlineLevel" | "collapsed" | "ph") {
                row.extra.push((n.local.clone(), v.clone()));
            }
        }
        if row != Row::default() {
            o.rows.insert(rn, row);
        }
        let mut last_c = 0u32;
        let mut ended = false;
        // what follows the cells belongs to the row
        let rest: String = r.elems().filter(|e| e.local() == "extLst").map(|e| e.canon()).collect();
        if !rest.is_empty() {
            o.rows.entry(rn).or_default().extra.push(("extLst".into(), rest));
        }
        let spans: Vec<(u32, u32)> = r
            .at("spans")
            .map(|s| s.split_ascii_whitespace().filter_map(|x| x.split_once(':')).filter_map(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?))).collect())
            .unwrap_or_default();
        for c in r.elems() {
            if c.local() == "extLst" && !ended {
                ended = true;
                continue;
            }
            if ended {
                o.order.push(format!("{} behind the extensions of row {rn}", c.local()));
            }
            if c.local() != "c" {
                o.order.push(format!("{} in row", c.local()));
                continue;
            }
            let (cr, cc) = match c.at("r") {
                None => (rn, last_c + 1),
                Some(s) => match parse_ref(s) {
                    Some(x) => x,
                    None => {
                        o.order.push(format!("cell reference {s:?}"));
                        continue;
                    }
                },
            };
            if cr != rn {
                o.order.push(format!("cell {} in row {rn}", cref(cr, cc)));
            }
            if cc <= last_c {
                o.order.push(format!("cell {} after column {last_c}", cref(cr, cc)));
            }
            last_c = cc;
            if !spans.is_empty() && !spans.iter().any(|&(a, b)| (a..=b).contains(&cc)) {
                o.spans.push(format!("cell {} is outside the spans {:?} of its row", cref(cr, cc), r.at("spans").unwrap_or("")));
            }
            o.bbox = Some(match o.bbox {
                None => (cr, cc, cr, cc),
                Some((a, b, x, y)) => (a.min(cr), b.min(cc), x.max(cr), y.max(cc)),
            });
            let cell = read_cell(c, sst, problems, &format!("{}!{}", o.name, cref(cr, cc)));
            if o.grid.contains_key(&(cr, cc)) {
                o.order.push(format!("cell {} twice", cref(cr, cc)));
            }
            o.grid.insert((cr, cc), cell);
        }
    }
}
fn num_text(s: &str) -> String {
    match s.parse::<f64>() {
        Ok(f) => format!("{f}"),
        Err(_) => s.to_string(),
    }
}

impl Book {
    pub fn read(bytes: &[u8]) -> Result<Book, String> {
        let pkg = Package::read(bytes)?;
        Self::of(pkg)
    }
    pub fn of(pkg: Package) -> Result<Book, String> {
        let mut problems = vec![];
        let wb_part = pkg.rel_target("", R_DOC).ok_or("no officeDocument relationship")?;
        let px = |n: &str| -> Result<Elem, String> {
            let b = pkg.parts.get(n).ok_or_else(|| format!("part {n} missing"))?;
            xml::parse(b).map_err(|e| format!("{n}: {e}"))
        };
        let wb = px(&wb_part)?;
        if wb.name.ns != X || wb.local() != "workbook" {
            return Err(format!("{wb_part}: root is {:?}", wb.name));
        }
        let rels = pkg.rels(&wb_part)?;
        let single = |ty: &str, problems: &mut Vec<String>| -> Option<String> {
            let v: Vec<_> = rels.iter().filter(|r| r.ty == ty).collect();
            if v.len() > 1 {
                problems.push(format!("{} relationships of type {ty}", v.len()));
            }
            v.first().map(|r| r.part.clone())
        };
        let sst_part = single(R_SST, &mut problems);
        let mut sst = vec![];
        if let Some(p) = &sst_part {
            let e = px(p)?;
            if e.name.ns != X || e.local() != "sst" {
                problems.push(format!("{p}: root is {:?}", e.name));
            }
            sst = e.elems().filter(|k| k.local() == "si").cloned().collect();
            if let Some(u) = e.at("uniqueCount") {
                if u != sst.len().to_string() {
                    problems.push(format!("shared strings: uniqueCount {u} but {} entries", sst.len()));
                }
            }
        }
        let styles = match single(R_STYLES, &mut problems) {
            Some(p) => Some(px(&p)?),
            None => None,
        };
        let mut views = vec![];
        if let Some(b) = wb.kid("bookViews") {
            for v in b.elems() {
                views.push(
                    v.attrs
                        .iter()
                        .map(|(k, v)| (if k.ns.is_empty() { k.local.clone() } else { format!("{{{}}}{}", k.ns, k.local) }, v.clone()))
                        .collect(),
                );
            }
        }
        let mut sheets = vec![];
        let mut ids = BTreeSet::new();
        let mut names = BTreeSet::new();
        let mut parts = BTreeSet::new();
        if wb.elems().filter(|k| k.local() == "sheets").count() != 1 {
            problems.push("not exactly one sheets element".into());
        }
        if let Some(sh) = wb.kid("sheets") {
            for s in sh.elems() {
                let name = s.at("name").unwrap_or("").to_string();
                let id = s.at("sheetId").unwrap_or("").to_string();
                let rid = s.at_ns(RNS, "id").unwrap_or("").to_string();
                if !ids.insert(id.clone()) {
                    problems.push(format!("sheetId {id} twice"));
                }
                if id.parse::<u32>().is_err() {
                    problems.push(format!("sheetId {id:?}"));
                }
                if !names.insert(name.clone()) {
                    problems.push(format!("sheet name {name:?} twice"));
                }
                let rel = rels.iter().find(|r| r.id == rid);
                let Some(rel) = rel else {
                    problems.push(format!("sheet {name:?}: relationship {rid:?} does not exist"));
                    continue;
                };
                if !parts.insert(rel.part.clone()) {
                    problems.push(format!("part {} serves two sheets", rel.part));
                }
                if rel.ty != R_SHEET {
                    problems.push(format!("sheet {name:?}: relationship type {}", rel.ty));
                }
                let e = px(&rel.part)?;
                if e.name.ns != X || e.local() != "worksheet" {
                    problems.push(format!("{}: root is {:?}", rel.part, e.name));
                }
                let mut o = Sheet {
                    name,
                    id,
                    state: s.at("state").unwrap_or("visible").to_string(),
                    rid,
                    part: rel.part.clone(),
                    xml: e.clone(),
                    grid: BTreeMap::new(),
                    rows: BTreeMap::new(),
                    col_ranges: vec![],
                    dimension: None,
                    bbox: None,
                    order: vec![],
                    spans: vec![],
                };
                read_sheet(&e, &sst, &mut o, &mut problems);
                sheets.push(o);
            }
        }
        for r in &rels {
            if r.ty == R_SHEET && !sheets.iter().any(|s| s.rid == r.id) {
                problems.push(format!("worksheet relationship {} belongs to no sheet", r.id));
            }
        }
        let calc = match single(R_CALC, &mut problems) {
            None => None,
            Some(p) => {
                let e = px(&p)?;
                let mut v = vec![];
                let mut cur: Option<String> = None;
                for c in e.elems() {
                    if let Some(i) = c.at("i") {
                        cur = Some(i.to_string());
                    }
                    v.push(Calc {
                        r: c.at("r").unwrap_or("").to_string(),
                        i: c.at("i").map(|s| s.to_string()),
                        sheet: cur.clone(),
                        attrs: c.attrs.iter().filter(|(k, _)| !matches!(k.local.as_str(), "r" | "i")).map(|(k, v)| (k.local.clone(), v.clone())).collect(),
                    });
                }
                Some(v)
            }
        };
        Ok(Book { pkg, wb_part, wb, sheets, views, sst, sst_part, calc, styles, problems })
    }
    pub fn sheet(&self, name: &str) -> Option<&Sheet> {
        self.sheets.iter().find(|s| s.name == name)
    }
    pub fn active(&self) -> usize {
        self.views.first().and_then(|v| v.get("activeTab")).and_then(|s| s.parse().ok()).unwrap_or(0)
    }
}
