//! Lockstep exploration: the same calls on a reference model of a workbook and on the library,
//! compared after every save against what an independent reader finds in the file.
use crate::props::common::*;
use crate::sty::{self, Fmt};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- operations

#[derive(Clone, Debug)]
pub struct CS {
    pub v: Option<&'static str>,
    pub t: CellDataType,
    pub f: Option<&'static str>,
    /// number of a style setting
    pub s: Option<usize>,
}
pub const fn cs(v: &'static str, t: CellDataType) -> CS {
    CS { v: Some(v), t, f: None, s: None }
}
pub fn num(v: &'static str) -> CS {
    cs(v, CellDataType::Number)
}
pub fn txt(v: &'static str) -> CS {
    cs(v, CellDataType::ShareString)
}
pub fn fml(f: &'static str) -> CS {
    CS { v: None, t: CellDataType::Number, f: Some(f), s: None }
}
pub fn none() -> CS {
    CS { v: None, t: CellDataType::Auto, f: None, s: None }
}
impl CS {
    pub fn st(mut self, k: usize) -> CS {
        self.s = Some(k);
        self
    }
    pub fn wf(mut self, f: &'static str) -> CS {
        self.f = Some(f);
        self
    }
}
#[derive(Clone, Debug, Default)]
pub struct RS {
    pub ht: Option<f32>,
    pub style: Option<usize>,
    pub hidden: Option<bool>,
    pub top: Option<bool>,
    pub bot: Option<bool>,
}
#[derive(Clone, Debug, Default)]
pub struct ColS {
    pub width: Option<f32>,
    pub style: Option<usize>,
    pub hidden: Option<bool>,
    pub best: Option<bool>,
}
#[derive(Clone, Debug)]
pub enum Act {
    /// row, first column, cells; true: addressed by reference
    Put(u32, u32, Vec<CS>, bool),
    /// a reference given as text that must be refused
    BadRef(&'static str),
    /// an index pair outside the grid
    BadIdx(u32, u16),
    /// cells of which one is refused: nothing may change
    BadCells(u32, u32, Vec<CS>),
    Row(u32, RS),
    Col(u32, Option<ColS>, bool),
    BadCol(u16),
    BadRow(u32),
    /// open and close without a change
    Nop,
}
#[derive(Clone, Debug)]
pub enum Op {
    /// get a handle into a slot
    Get(usize, &'static str),
    /// add a sheet, handle into a slot
    Add(usize, Option<&'static str>),
    Drop(usize),
    Del(usize),
    Do(usize, Act),
    /// get, act, drop in one
    On(&'static str, Act),
    /// get, act, drop on the sheet at a position of the list
    At(usize, Act),
    DelName(&'static str),
    AddDrop(Option<&'static str>),
    Rename(&'static str, &'static str),
    Active(&'static str),
    Hide(&'static str),
    Vis(bool),
    Min(bool),
    Tabs(bool),
    V(bool),
    H(bool),
    Style(usize),
    /// release all handles, save, open the saved file
    Reopen,
    /// save while handles are out
    SaveOut,
}

// ---------------------------------------------------------------- model

pub const REQ: u32 = 1 << 20;
#[derive(Clone, Debug)]
pub struct MSheet {
    pub uid: u32,
    pub name: String,
    pub state: String,
    pub grid: BTreeMap<(u32, u32), Cell>,
    pub rows: BTreeMap<u32, wb::Row>,
    /// disjoint ascending ranges; alternatives where the source is ambiguous
    pub cols: Vec<(u32, u32, Vec<wb::Col>)>,
    /// everything but rows, columns and dimension, as found in the source
    pub rest: Option<Elem>,
    pub views_default: bool,
    /// bytes and part of the source while it was never opened
    pub raw: Option<(String, Vec<u8>)>,
    pub part: Option<String>,
    pub id: Option<String>,
    pub attrs: Vec<(String, String)>,
    pub src: bool,
}
#[derive(Clone, Debug)]
pub struct Model {
    pub sheets: Vec<MSheet>,
    pub next: u32,
    /// None: any
    pub active: Option<u32>,
    pub first: Option<Option<u32>>,
    pub views: Vec<BTreeMap<String, String>>,
    pub set: BTreeMap<&'static str, String>,
    pub wb_rest: Option<Elem>,
    pub names: Vec<(Elem, Option<u32>)>,
    /// other views: (activeTab, firstSheet) as sheets
    pub calc: Vec<(u32, String, Vec<(String, String)>)>,
    pub deleted: bool,
}
pub const A_NAMES: u32 = 1; // names, order
pub const A_STATE: u32 = 2; // visibility, active sheet
pub const A_GRID: u32 = 4;
pub const A_ROWS: u32 = 8;
pub const A_COLS: u32 = 16;
pub const A_ORDER: u32 = 32; // row and cell order, dimension
pub const A_REST: u32 = 64; // other content of sheets
pub const A_WB: u32 = 128; // other content of the workbook
pub const A_VIEWS: u32 = 256;
pub const A_SST: u32 = 512;
pub const A_CALC: u32 = 1024;
pub const A_OPC: u32 = 2048;
pub const A_PARTS: u32 = 4096; // parts not interpreted
pub const A_STYLES: u32 = 8192;
pub const A_RES: u32 = 16384; // results of calls
pub const A_STR: u32 = 32768; // structure of the workbook: ids, references between parts
pub const A_ALL: u32 = u32::MAX;

const WS_ORDER: &[&str] = &[
    "sheetPr", "dimension", "sheetViews", "sheetFormatPr", "cols", "sheetData", "sheetCalcPr", "sheetProtection", "protectedRanges", "scenarios",
    "autoFilter", "sortState", "dataConsolidate", "customSheetViews", "mergeCells", "phoneticPr", "conditionalFormatting", "dataValidations",
    "hyperlinks", "printOptions", "pageMargins", "pageSetup", "headerFooter", "rowBreaks", "colBreaks", "customProperties", "cellWatches",
    "ignoredErrors", "smartTags", "drawing", "legacyDrawing", "legacyDrawingHF", "drawingHF", "picture", "oleObjects", "controls",
    "webPublishItems", "tableParts", "extLst",
];
const WB_ORDER: &[&str] = &[
    "fileVersion", "fileSharing", "workbookPr", "workbookProtection", "bookViews", "sheets", "functionGroups", "externalReferences",
    "definedNames", "calcPr", "oleSize", "customWorkbookViews", "pivotCaches", "smartTagPr", "smartTagTypes", "webPublishing",
    "fileRecoveryPr", "webPublishObjects", "extLst",
];
pub fn order_of(e: &Elem, order: &[&str]) -> Option<String> {
    let mut last = 0;
    for k in e.elems() {
        if k.name.ns != e.name.ns {
            continue;
        }
        match order.iter().position(|o| *o == k.local()) {
            None => {}
            Some(p) => {
                if p < last {
                    return Some(format!("{} stands after {}", k.local(), order[last]));
                }
                if p == last && last > 0 && !matches!(k.local(), "conditionalFormatting" | "fileRecoveryPr") && e.elems().filter(|x| x.name == k.name).count() > 1 {
                    return Some(format!("{} twice", k.local()));
                }
                last = p;
            }
        }
    }
    None
}

fn col_alts(s: &wb::Sheet) -> Vec<(u32, u32, Vec<wb::Col>)> {
    let mut cuts = BTreeSet::new();
    for (a, b, _) in &s.col_ranges {
        cuts.insert(*a);
        cuts.insert(*b + 1);
    }
    let cuts: Vec<u32> = cuts.into_iter().collect();
    let mut out = vec![];
    for w in cuts.windows(2) {
        let alts: Vec<wb::Col> = s.col_ranges.iter().filter(|(a, b, _)| *a <= w[0] && w[1] - 1 <= *b).map(|(_, _, c)| c.clone()).collect();
        if !alts.is_empty() {
            out.push((w[0], w[1] - 1, alts));
        }
    }
    out
}
fn sheet_rest(e: &Elem) -> Elem {
    let mut r = e.clone();
    r.kids = e
        .kids
        .iter()
        .filter(|k| match k {
            Node::E(x) => !(x.name.ns == wb::X && matches!(x.local(), "dimension" | "cols" | "sheetData")),
            Node::T(_) => false,
        })
        .cloned()
        .collect();
    r
}
fn wb_rest(e: &Elem) -> Elem {
    let mut r = e.clone();
    r.kids = e
        .kids
        .iter()
        .filter(|k| match k {
            Node::E(x) => !(x.name.ns == wb::X && matches!(x.local(), "bookViews" | "sheets" | "definedNames")),
            Node::T(_) => false,
        })
        .cloned()
        .collect();
    r
}
fn sheet_attrs(wbe: &Elem, name: &str) -> Vec<(String, String)> {
    let Some(sh) = wbe.kid("sheets") else { return vec![] };
    sh.elems()
        .find(|e| e.at("name") == Some(name))
        .map(|e| {
            e.attrs
                .iter()
                .filter(|(k, _)| !(k.ns.is_empty() && matches!(k.local.as_str(), "name" | "sheetId" | "state")) && k.ns != wb::RNS)
                .map(|(k, v)| (format!("{{{}}}{}", k.ns, k.local), v.clone()))
                .collect()
        })
        .unwrap_or_default()
}
fn nonvoid(g: &BTreeMap<(u32, u32), Cell>) -> BTreeMap<(u32, u32), Cell> {
    g.iter().filter(|(_, c)| !c.is_void()).map(|(k, c)| (*k, c.clone())).collect()
}

impl Model {
    pub fn of(b: &Book, next: u32) -> Model {
        let mut m = Model {
            sheets: vec![],
            next,
            active: None,
            first: None,
            views: b.views.clone(),
            set: BTreeMap::new(),
            wb_rest: Some(wb_rest(&b.wb)),
            names: vec![],
            calc: vec![],
            deleted: false,
        };
        for s in &b.sheets {
            m.sheets.push(MSheet {
                uid: m.next,
                name: s.name.clone(),
                state: s.state.clone(),
                grid: nonvoid(&s.grid),
                rows: s.rows.clone(),
                cols: col_alts(s),
                rest: Some(sheet_rest(&s.xml)),
                views_default: s.xml.kid("sheetViews").is_none(),
                raw: b.pkg.parts.get(&s.part).map(|x| (s.part.clone(), x.clone())),
                part: Some(s.part.clone()),
                id: Some(s.id.clone()),
                attrs: sheet_attrs(&b.wb, &s.name),
                src: true,
            });
            m.next += 1;
        }
        m.active = m.sheets.get(b.active()).map(|s| s.uid);
        m.first = b.views.first().and_then(|v| v.get("firstSheet")).map(|f| f.parse::<usize>().ok().and_then(|i| m.sheets.get(i)).map(|s| s.uid));
        if let Some(d) = b.wb.kid("definedNames") {
            for e in d.elems() {
                let l = e.at("localSheetId").and_then(|s| s.parse::<usize>().ok()).and_then(|i| m.sheets.get(i)).map(|s| s.uid);
                let mut c = e.clone();
                if l.is_some() {
                    c.attrs.retain(|k, _| k.local != "localSheetId");
                }
                m.names.push((c, l));
            }
        }
        for c in b.calc.iter().flatten() {
            if let Some(s) = m.sheets.iter().find(|s| s.id == c.sheet) {
                m.calc.push((s.uid, c.r.clone(), c.attrs.clone()));
            }
        }
        m
    }
    pub fn new_sheet(&mut self, name: &str) -> u32 {
        let uid = self.next;
        self.next += 1;
        self.sheets.push(MSheet {
            uid,
            name: name.into(),
            state: "visible".into(),
            grid: BTreeMap::new(),
            rows: BTreeMap::new(),
            cols: vec![],
            rest: None,
            views_default: true,
            raw: None,
            part: None,
            id: None,
            attrs: vec![],
            src: false,
        });
        uid
    }
    pub fn by_name(&self, n: &str) -> Option<usize> {
        self.sheets.iter().position(|s| s.name == n)
    }
    pub fn by_uid(&self, u: u32) -> Option<usize> {
        self.sheets.iter().position(|s| s.uid == u)
    }
    fn delete(&mut self, uid: u32) {
        self.sheets.retain(|s| s.uid != uid);
        if self.active == Some(uid) {
            self.active = None;
        }
        if self.first == Some(Some(uid)) {
            self.first = Some(None);
        }
        self.names.retain(|(_, l)| *l != Some(uid));
        self.calc.retain(|(u, _, _)| *u != uid);
        self.deleted = true;
    }
    pub fn hash(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for s in &self.sheets {
            (&s.uid, &s.name, &s.state, &s.grid, &s.rows).hash(&mut h);
            for (a, b, c) in &s.cols {
                (a, b, c).hash(&mut h);
            }
            s.raw.is_some().hash(&mut h);
        }
        (&self.active, &self.set, &self.calc).hash(&mut h);
        h.finish()
    }
}

fn set_col(cols: &mut Vec<(u32, u32, Vec<wb::Col>)>, c: u32, to: Option<Vec<wb::Col>>) {
    let mut out = vec![];
    for (a, b, k) in cols.drain(..) {
        if b < c || a > c {
            out.push((a, b, k));
            continue;
        }
        if a < c {
            out.push((a, c - 1, k.clone()));
        }
        if b > c {
            out.push((c + 1, b, k));
        }
    }
    if let Some(t) = to {
        out.push((c, c, t));
    }
    out.sort_by_key(|x| x.0);
    *cols = out;
}

/// Style settings by number.
pub fn style(k: usize) -> StyleSetting {
    let mut s = StyleSetting::default();
    match k {
        0 => s.is_bold = true,
        1 => {
            s.number_format = NumberFormatValues::Custom;
            s.custom_number_format = Some("0.0\"x\"".into());
        }
        2 => {
            s.background_color = Some("FFFF0000".into());
            s.horizontal_alignment = HorizontalAlignmentValues::CENTER;
            s.border_left = BorderSetting { border_color: Some(sty::rgb("FF00FF00")), style: BorderStyleValues::Thin };
        }
        3 => {
            s.is_italic = true;
            s.number_format = NumberFormatValues::Percentage;
            s.is_wrap_text = true;
        }
        _ => s.font_size = 10 + k as u8,
    }
    s
}

fn f32s(f: f32) -> String {
    format!("{}", f.to_string().parse::<f64>().unwrap())
}
fn sid(k: Option<usize>) -> u32 {
    k.map(|k| REQ + k as u32).unwrap_or(0)
}
pub fn cell_of(c: &CS) -> Cell {
    let kind = match (c.v, c.t) {
        (None, _) => Kind::Blank,
        (Some(v), CellDataType::Number) => Kind::Num(v.into()),
        (Some(v), CellDataType::Boolean) => Kind::Bool(v == "true" || v == "1" || v == "TRUE"),
        (Some(v), CellDataType::Error) => Kind::Err(v.into()),
        (Some(v), CellDataType::Auto) => {
            if v == "true" || v == "false" {
                Kind::Bool(v == "true")
            } else if v.parse::<f64>().is_ok_and(|f| f.is_finite()) {
                Kind::Num(v.into())
            } else {
                Kind::Text(v.into())
            }
        }
        (Some(v), _) => Kind::Text(v.into()),
    };
    Cell { kind, f: c.f.map(|f| (f.to_string(), vec![])), s: sid(c.s), extra: vec![] }
}

// ---------------------------------------------------------------- simulation

pub struct Sim<'a> {
    pub sc: &'a Scratch,
    pub xl: Option<Xl>,
    pub m: Model,
    pub slots: Vec<Option<(u32, WorkSheet)>>,
    pub ids: BTreeMap<usize, StyleId>,
    pub reqs: BTreeMap<usize, Fmt>,
    pub src: Option<Book>,
    pub src_path: Option<String>,
    pub src_bytes: Option<Vec<u8>>,
    pub aspects: u32,
    pub o: Out,
    pub dead: bool,
    pub saved: Option<Vec<u8>>,
    /// the same records must come with the same ids until the document is closed
    n_ops: u64,
}

pub fn props(c: &CS, ids: &BTreeMap<usize, StyleId>) -> CellProperties {
    let mut p = CellProperties::default();
    p.value = c.v.map(|s| s.to_string());
    p.data_type = c.t;
    p.formula = c.f.map(|s| s.to_string());
    p.style_id = c.s.map(|k| ids[&k].clone());
    p
}

impl<'a> Sim<'a> {
    pub fn new(src: Option<&[u8]>, aspects: u32, sc: &'a Scratch) -> Sim<'a> {
        let mut s = Sim {
            sc,
            xl: None,
            m: Model { sheets: vec![], next: 1, active: None, first: None, views: vec![], set: BTreeMap::new(), wb_rest: None, names: vec![], calc: vec![], deleted: false },
            slots: vec![],
            ids: BTreeMap::new(),
            reqs: BTreeMap::new(),
            src: None,
            src_path: None,
            src_bytes: None,
            aspects,
            o: Out { nontrivial: true, ..Default::default() },
            dead: false,
            saved: None,
            n_ops: 0,
        };
        let path = src.map(|b| {
            s.src_bytes = Some(b.to_vec());
            let bk = Book::read(b).expect("harness: fixture");
            s.m = Model::of(&bk, 1);
            s.src = Some(bk);
            sc.put("xlsx", b)
        });
        s.src_path = path.clone();
        match open(path.as_deref()) {
            Res::Ok(x) => s.xl = Some(x),
            r => {
                s.bad(A_ALL, format!("open: {}", r.show()));
                s.dead = true;
                return s;
            }
        }
        if src.is_none() {
            match s.xl.as_mut().unwrap().list() {
                Res::Ok(v) if v.len() == 1 => {
                    s.m.new_sheet(&v[0]);
                    s.m.active = Some(1);
                }
                r => {
                    s.bad(A_ALL, format!("a new workbook lists {r:?}"));
                    s.dead = true;
                }
            }
        }
        s
    }
    pub fn bad(&mut self, aspect: u32, p: impl Into<String>) {
        if self.aspects & aspect != 0 {
            self.o.bad(p);
        }
    }
    fn fail(&mut self, p: impl Into<String>) {
        self.o.bad(p);
        self.dead = true;
    }
    fn slot(&mut self, i: usize) -> &mut Option<(u32, WorkSheet)> {
        while self.slots.len() <= i {
            self.slots.push(None);
        }
        &mut self.slots[i]
    }
    fn held(&self, uid: u32) -> bool {
        self.slots.iter().flatten().any(|(u, _)| *u == uid)
    }
    fn style_id(&mut self, k: usize) -> bool {
        if self.ids.contains_key(&k) {
            return true;
        }
        match self.xl.as_mut().unwrap().style(style(k)) {
            Res::Ok(id) => {
                self.ids.insert(k, id);
                self.reqs.insert(k, sty::requested(&style(k)));
                true
            }
            r => {
                self.fail(format!("style id: {}", r.show()));
                false
            }
        }
    }
    fn need_styles(&mut self, a: &Act) -> bool {
        let v: Vec<usize> = match a {
            Act::Put(_, _, c, _) | Act::BadCells(_, _, c) => c.iter().filter_map(|c| c.s).collect(),
            Act::Row(_, r) => r.style.into_iter().collect(),
            Act::Col(_, Some(c), _) => c.style.into_iter().collect(),
            _ => vec![],
        };
        v.into_iter().all(|k| self.style_id(k))
    }
    /// Performs one action through a handle and on the model.
    fn act(&mut self, w: &mut WorkSheet, uid: u32, a: &Act) {
        if !self.need_styles(a) {
            return;
        }
        self.n_ops += 1;
        let ids = &self.ids;
        let si = self.m.by_uid(uid).expect("harness: sheet of handle");
        match a {
            Act::Nop => {}
            Act::Put(r, c, cells, by_ref) => {
                let v: Vec<CellProperties> = cells.iter().map(|c| props(c, ids)).collect();
                let res = if *by_ref {
                    let rf = wb::cref(*r, *c);
                    ws_call(w, |w| w.set_row_value_ref_mut(&rf, v))
                } else {
                    let (r, c) = (*r, *c as u16);
                    ws_call(w, |w| w.set_row_value_index_mut(r, c, v))
                };
                match res {
                    Res::Ok(()) => {
                        let s = &mut self.m.sheets[si];
                        for (i, x) in cells.iter().enumerate() {
                            let at = (*r, *c + i as u32);
                            let cell = cell_of(x);
                            if s.grid.get(&at).is_some_and(|o| o.f.is_some()) {
                                let rf = wb::cref(at.0, at.1);
                                self.m.calc.retain(|(u, k, _)| !(*u == uid && *k == rf));
                            }
                            if cell.is_void() {
                                s.grid.remove(&at);
                            } else {
                                s.grid.insert(at, cell);
                            }
                        }
                    }
                    e => {
                        self.bad(A_RES | A_GRID, format!("writing {cells:?} at {}: {}", wb::cref(*r, *c), e.show()));
                        if e.panic().is_some() {
                            self.fail("panic");
                        }
                    }
                }
            }
            Act::BadRef(rf) => {
                let res = ws_call(w, |w| w.set_row_value_ref_mut(rf, vec![cell("7", CellDataType::Number)]));
                if !res.is_err() {
                    self.bad(A_RES, format!("writing to {rf:?}: {}", res.show()));
                }
            }
            Act::BadIdx(r, c) => {
                let res = ws_call(w, |w| w.set_row_value_index_mut(*r, *c, vec![cell("7", CellDataType::Number)]));
                if !res.is_err() {
                    self.bad(A_RES, format!("writing to row {r} column {c}: {}", res.show()));
                }
            }
            Act::BadCells(r, c, cells) => {
                let v: Vec<CellProperties> = cells.iter().map(|c| props(c, ids)).collect();
                let res = ws_call(w, |w| w.set_row_value_index_mut(*r, *c as u16, v));
                if !res.is_err() {
                    self.bad(A_RES, format!("writing {cells:?}: {}", res.show()));
                }
            }
            Act::BadRow(r) => {
                let res = ws_call(w, |w| w.set_row_index_properties_mut(r, RowProperties::default()));
                if !res.is_err() {
                    self.bad(A_RES, format!("properties of row {r}: {}", res.show()));
                }
            }
            Act::BadCol(c) => {
                let res = ws_call(w, |w| w.set_column_index_properties_mut(c, Some(ColumnProperties::default())));
                if !res.is_err() {
                    self.bad(A_RES, format!("properties of column {c}: {}", res.show()));
                }
            }
            Act::Row(r, p) => {
                let mut x = RowProperties::default();
                x.height = p.ht;
                x.hidden = p.hidden;
                x.thick_top = p.top;
                x.thick_bottom = p.bot;
                x.style_id = p.style.map(|k| ids[&k].clone());
                match ws_call(w, |w| w.set_row_index_properties_mut(r, x)) {
                    Res::Ok(()) => {
                        let s = &mut self.m.sheets[si];
                        let old = s.rows.get(r).cloned().unwrap_or_default();
                        s.rows.insert(
                            *r,
                            wb::Row {
                                ht: p.ht.map(f32s),
                                custom_ht: p.ht.is_some(),
                                hidden: p.hidden == Some(true),
                                style: p.style.map(|k| REQ + k as u32),
                                thick_top: p.top == Some(true),
                                thick_bot: p.bot == Some(true),
                                ..old
                            },
                        );
                    }
                    res => self.bad(A_RES | A_ROWS, format!("properties of row {r}: {}", res.show())),
                }
            }
            Act::Col(c, p, by_ref) => {
                let x = p.as_ref().map(|p| {
                    let mut x = ColumnProperties::default();
                    x.width = p.width;
                    x.hidden = p.hidden;
                    x.best_fit = p.best;
                    x.style_id = p.style.map(|k| ids[&k].clone());
                    x
                });
                let res = if *by_ref {
                    let rf = format!("{}3", wb::col_name(*c));
                    ws_call(w, |w| w.set_column_ref_properties_mut(&rf, x))
                } else {
                    let c = *c as u16;
                    ws_call(w, |w| w.set_column_index_properties_mut(&c, x))
                };
                match res {
                    Res::Ok(()) => {
                        let s = &mut self.m.sheets[si];
                        // what there is no property for is not the edit's concern
                        let old = s.cols.iter().find(|o| o.0 <= *c && *c <= o.1).map(|o| o.2.clone()).unwrap_or_else(|| vec![Default::default()]);
                        let to = p.as_ref().map(|p| {
                            old.iter()
                                .map(|o| wb::Col {
                                    width: p.width.map(f32s),
                                    custom_w: p.width.is_some(),
                                    hidden: p.hidden == Some(true),
                                    style: sid(p.style),
                                    best_fit: p.best == Some(true),
                                    ..o.clone()
                                })
                                .collect()
                        });
                        set_col(&mut s.cols, *c, to);
                    }
                    res => self.bad(A_RES | A_COLS, format!("properties of column {c}: {}", res.show())),
                }
            }
        }
    }
    fn touched(&mut self, uid: u32) {
        if let Some(i) = self.m.by_uid(uid) {
            self.m.sheets[i].raw = None;
        }
    }
    /// Ok(Some(uid, handle)), or None after an error that was due or reported.
    fn obtain(&mut self, name: &str) -> Option<(u32, WorkSheet)> {
        let r = self.xl.as_mut().unwrap().get(name);
        let known = self.m.by_name(name);
        match (known, r) {
            (Some(i), Res::Ok(w)) => {
                let uid = self.m.sheets[i].uid;
                if self.held(uid) {
                    self.bad(A_RES, format!("a second handle to {name:?} was given out"));
                    std::mem::forget(w);
                    self.dead = true;
                    return None;
                }
                self.touched(uid);
                Some((uid, w))
            }
            (Some(i), r) => {
                let uid = self.m.sheets[i].uid;
                if let Some(p) = r.panic() {
                    self.fail(format!("getting {name:?}: {p}"));
                } else if !self.held(uid) {
                    self.bad(A_RES | A_NAMES, format!("getting {name:?}: {}", r.show()));
                }
                None
            }
            (None, Res::Ok(w)) => {
                let uid = self.m.new_sheet(name);
                Some((uid, w))
            }
            (None, Res::Err(_)) => None,
            (None, r) => {
                self.fail(format!("getting {name:?}: {}", r.show()));
                None
            }
        }
    }
    fn add(&mut self, name: Option<&str>) -> Option<(u32, WorkSheet)> {
        let r = self.xl.as_mut().unwrap().add(name);
        match name {
            Some(n) => match (self.m.by_name(n), r) {
                (None, Res::Ok(w)) => Some((self.m.new_sheet(n), w)),
                (None, r) => {
                    self.bad(A_RES | A_NAMES, format!("adding {n:?}: {}", r.show()));
                    if r.panic().is_some() {
                        self.fail("panic");
                    }
                    None
                }
                (Some(i), Res::Ok(w)) => {
                    let uid = self.m.sheets[i].uid;
                    if self.held(uid) {
                        self.bad(A_RES, format!("adding {n:?} again gave out a second handle"));
                        std::mem::forget(w);
                        self.dead = true;
                        return None;
                    }
                    self.touched(uid);
                    Some((uid, w))
                }
                (Some(_), Res::Err(_)) => None,
                (Some(_), r) => {
                    self.fail(format!("adding {n:?} again: {}", r.show()));
                    None
                }
            },
            None => match r {
                Res::Ok(w) => {
                    let names = match self.xl.as_mut().unwrap().list() {
                        Res::Ok(v) => v,
                        r => {
                            self.fail(format!("list: {}", r.show()));
                            return None;
                        }
                    };
                    let old: Vec<String> = self.m.sheets.iter().map(|s| s.name.clone()).collect();
                    if names.len() != old.len() + 1 || names[..old.len()] != old[..] || old.contains(names.last().unwrap()) {
                        self.bad(A_NAMES, format!("adding a sheet without a name to {old:?} gave {names:?}"));
                        self.dead = true;
                        std::mem::forget(w);
                        return None;
                    }
                    let n = names.last().unwrap().clone();
                    Some((self.m.new_sheet(&n), w))
                }
                r => {
                    self.fail(format!("adding a sheet: {}", r.show()));
                    None
                }
            },
        }
    }
    fn drop_h(&mut self, w: WorkSheet) {
        if let Some(p) = ws_drop(w) {
            self.fail(format!("releasing a handle: {p}"));
        }
    }
    fn flag_res(&mut self, what: &str, r: Res<()>, want_ok: bool) {
        if let Some(p) = r.panic() {
            self.fail(format!("{what}: {p}"));
        } else if r.is_ok() != want_ok {
            self.bad(A_RES | A_NAMES | A_STATE | A_VIEWS, format!("{what}: {} (expected {})", r.show(), if want_ok { "success" } else { "an error" }));
        }
    }
    /// One operation on both sides. False: not applicable here, the sequence is not a case.
    pub fn step(&mut self, op: &Op) -> bool {
        if self.dead {
            return true;
        }
        self.o.transitions += 1;
        match op {
            Op::Get(i, n) => {
                if self.slot(*i).is_some() {
                    return false;
                }
                let h = self.obtain(n);
                *self.slot(*i) = h;
            }
            Op::Add(i, n) => {
                if self.slot(*i).is_some() {
                    return false;
                }
                let h = self.add(*n);
                *self.slot(*i) = h;
            }
            Op::Drop(i) => match self.slot(*i).take() {
                None => return false,
                Some((_, w)) => self.drop_h(w),
            },
            Op::Del(i) => match self.slot(*i).take() {
                None => return false,
                Some((uid, w)) => self.delete(uid, w),
            },
            Op::Do(i, a) => match self.slot(*i).take() {
                None => return false,
                Some((uid, mut w)) => {
                    self.act(&mut w, uid, a);
                    *self.slot(*i) = Some((uid, w));
                }
            },
            Op::On(n, a) => {
                if self.m.by_name(n).is_none_or(|i| self.held(self.m.sheets[i].uid)) {
                    return false;
                }
                if let Some((uid, mut w)) = self.obtain(n) {
                    self.act(&mut w, uid, a);
                    self.drop_h(w);
                }
            }
            Op::At(i, a) => {
                let Some(s) = self.m.sheets.get(*i) else { return false };
                if self.held(s.uid) {
                    return false;
                }
                let n = s.name.clone();
                if let Some((uid, mut w)) = self.obtain(&n) {
                    self.act(&mut w, uid, a);
                    self.drop_h(w);
                }
            }
            Op::DelName(n) => {
                if self.m.by_name(n).is_none_or(|i| self.held(self.m.sheets[i].uid)) {
                    return false;
                }
                if let Some((uid, w)) = self.obtain(n) {
                    self.delete(uid, w);
                }
            }
            Op::AddDrop(n) => {
                if let Some((_, w)) = self.add(*n) {
                    self.drop_h(w);
                }
            }
            Op::Rename(a, b) => {
                let r = self.xl.as_mut().unwrap().rename(a, b);
                let ok = self.m.by_name(a).is_some() && self.m.by_name(b).is_none();
                if a == b && self.m.by_name(a).is_some() {
                    if let Some(p) = r.panic() {
                        self.fail(format!("rename: {p}"));
                    }
                } else {
                    self.flag_res(&format!("renaming {a:?} to {b:?}"), r, ok);
                    if ok {
                        let i = self.m.by_name(a).unwrap();
                        self.m.sheets[i].name = b.to_string();
                    }
                }
            }
            Op::Active(n) => {
                let r = self.xl.as_mut().unwrap().active(n);
                let i = self.m.by_name(n);
                self.flag_res(&format!("activating {n:?}"), r, i.is_some());
                if let Some(i) = i {
                    self.m.active = Some(self.m.sheets[i].uid);
                }
            }
            Op::Hide(n) => {
                let r = self.xl.as_mut().unwrap().hide(n);
                let i = self.m.by_name(n);
                self.flag_res(&format!("hiding {n:?}"), r, i.is_some());
                if let Some(i) = i {
                    if self.m.sheets[i].state == "visible" {
                        self.m.sheets[i].state = "hidden".into();
                    }
                }
            }
            Op::Vis(b) => {
                let r = self.xl.as_mut().unwrap().visibility(*b);
                self.flag_res("visibility", r, true);
                self.m.set.insert("visibility", if *b { "visible" } else { "hidden" }.into());
            }
            Op::Min(b) => {
                let r = self.xl.as_mut().unwrap().minimize(*b);
                self.flag_res("minimize", r, true);
                self.m.set.insert("minimized", b.to_string());
            }
            Op::Tabs(b) => {
                let r = self.xl.as_mut().unwrap().hide_tabs(*b);
                self.flag_res("hide tabs", r, true);
                self.m.set.insert("showSheetTabs", (!b).to_string());
            }
            Op::V(b) => {
                let r = self.xl.as_mut().unwrap().hide_v(*b);
                self.flag_res("hide vertical scroll", r, true);
                self.m.set.insert("showVerticalScroll", (!b).to_string());
            }
            Op::H(b) => {
                let r = self.xl.as_mut().unwrap().hide_h(*b);
                self.flag_res("hide horizontal scroll", r, true);
                self.m.set.insert("showHorizontalScroll", (!b).to_string());
            }
            Op::Style(k) => match self.xl.as_mut().unwrap().style(style(*k)) {
                Res::Ok(id) => {
                    match self.ids.get(k) {
                        Some(old) if old.get_id() != id.get_id() => self.bad(A_STYLES | A_RES, format!("style {k} has id {} and then {}", old.get_id(), id.get_id())),
                        Some(_) => {}
                        None => {
                            let clash = self.ids.iter().find(|(_, o)| o.get_id() == id.get_id()).map(|(j, _)| *j);
                            if let Some(j) = clash {
                                self.bad(A_STYLES | A_RES, format!("styles {j} and {k} have the same id {}", id.get_id()));
                            }
                        }
                    }
                    self.ids.insert(*k, id);
                    self.reqs.insert(*k, sty::requested(&style(*k)));
                }
                r => self.fail(format!("style id: {}", r.show())),
            },
            Op::Reopen => {
                if let Some(b) = self.save() {
                    let p = self.sc.put("xlsx", &b);
                    match open(Some(&p)) {
                        Res::Ok(x) => self.xl = Some(x),
                        r => self.fail(format!("opening the saved file: {}", r.show())),
                    }
                }
            }
            Op::SaveOut => {
                let out = !self.slots.iter().all(|s| s.is_none());
                if !out {
                    return false;
                }
                let p = self.sc.put("xlsx", b"previous content");
                let mut xl = self.xl.take().unwrap();
                match xl.save(&p) {
                    Res::Err(_) => {
                        if std::fs::read(&p).ok().as_deref() != Some(b"previous content") {
                            self.bad(A_ALL, "a save that was refused changed the target".to_string());
                        }
                    }
                    Res::Ok(()) => match std::fs::read(&p) {
                        Ok(b) => {
                            self.compare(&b);
                        }
                        Err(e) => self.fail(format!("save reported success but {e}")),
                    },
                    r => self.fail(format!("save with handles out: {}", r.show())),
                }
                // the handles are orphans now: using and releasing them must be harmless
                let slots: Vec<_> = self.slots.drain(..).collect();
                for (_, mut w) in slots.into_iter().flatten() {
                    let r = ws_call(&mut w, |w| w.set_row_value_index_mut(1, 1, vec![cell("7", CellDataType::Number)]));
                    if let Some(p) = r.panic() {
                        self.fail(format!("handle after save: {p}"));
                    }
                    self.drop_h(w);
                }
                self.dead = true;
            }
        }
        if !self.dead {
            self.check_list();
            let h = self.m.hash();
            self.o.states.push(h);
        }
        true
    }
    fn delete(&mut self, uid: u32, w: WorkSheet) {
        match ws_delete(w) {
            Res::Ok(()) => self.m.delete(uid),
            r => {
                self.bad(A_RES | A_NAMES, format!("deleting a sheet: {}", r.show()));
                self.dead = true;
            }
        }
    }
    fn check_list(&mut self) {
        let want: Vec<String> = self.m.sheets.iter().map(|s| s.name.clone()).collect();
        match self.xl.as_mut().unwrap().list() {
            Res::Ok(v) if v == want => {}
            Res::Ok(v) => {
                self.bad(A_NAMES, format!("sheets are {v:?} instead of {want:?}"));
                if self.aspects & A_NAMES == 0 {
                    self.dead = true;
                }
            }
            r => self.fail(format!("list: {}", r.show())),
        }
    }
    /// Releases all handles, saves, compares. The saved bytes.
    pub fn save(&mut self) -> Option<Vec<u8>> {
        let slots: Vec<_> = self.slots.drain(..).collect();
        for (_, w) in slots.into_iter().flatten() {
            self.drop_h(w);
        }
        if self.dead {
            return None;
        }
        let mut xl = self.xl.take().unwrap();
        match xl.save_bytes(self.sc) {
            Res::Ok(b) => {
                self.ids.clear();
                self.compare(&b);
                if self.dead {
                    return None;
                }
                self.saved = Some(b.clone());
                Some(b)
            }
            r => {
                self.fail(format!("save: {}", r.show()));
                None
            }
        }
    }
    pub fn finish(mut self) -> Out {
        if !self.dead {
            if let Some(b) = self.save() {
                self.o.outcome = h64(&self.m.hash());
                let _ = b;
            }
        }
        if let (Some(p), Some(b)) = (&self.src_path, &self.src_bytes) {
            if std::fs::read(p).ok().as_deref() != Some(&b[..]) {
                self.o.bad("the source file changed");
            }
        }
        self.o
    }
    pub fn run(src: Option<&[u8]>, aspects: u32, sc: &Scratch, ops: &[Op]) -> Out {
        let mut s = Sim::new(src, aspects, sc);
        for op in ops {
            if !s.step(op) {
                // the prefix is a case of its own
                let mut o = s.o;
                o.nontrivial = false;
                return o;
            }
        }
        s.finish()
    }

    // ------------------------------------------------------------ comparison

    fn style_ok(&self, styles: &Option<Elem>, want: u32, got: u32) -> Result<(), String> {
        if want < REQ {
            return if want == got { Ok(()) } else { Err(format!("style {got} instead of {want}")) };
        }
        let k = (want - REQ) as usize;
        let Some(st) = styles else { return Err("no styles part".into()) };
        match sty::resolve(st, got) {
            Err(e) => Err(format!("style {got}: {e}")),
            Ok(f) => match self.reqs[&k].differs(&f) {
                None => Ok(()),
                Some(d) => Err(format!("style {got} is not setting {k}: {d}")),
            },
        }
    }

    pub fn compare(&mut self, bytes: &[u8]) {
        let b = match Book::read(bytes) {
            Ok(b) => b,
            Err(e) => {
                self.fail(format!("the saved file is unreadable: {e}"));
                return;
            }
        };
        for p in b.problems.clone() {
            let sst = p.contains("shared string");
            self.bad(if sst { A_SST | A_GRID } else { A_STR | A_NAMES | A_OPC }, p);
        }
        self.cmp_names(&b);
        let want: Vec<String> = self.m.sheets.iter().map(|s| s.name.clone()).collect();
        let got: Vec<String> = b.sheets.iter().map(|s| s.name.clone()).collect();
        if want != got {
            if self.aspects & A_NAMES == 0 {
                self.o.bad(format!("saved sheets are {got:?} instead of {want:?}"));
            }
            self.dead = true;
            return;
        }
        for i in 0..b.sheets.len() {
            self.cmp_sheet(i, &b);
        }
        self.cmp_wb(&b);
        self.cmp_views(&b);
        self.cmp_sst(&b);
        self.cmp_calc(&b);
        self.cmp_styles(&b);
        self.cmp_pkg(&b);
        // adopt what the library was free to choose
        for (s, o) in self.m.sheets.iter_mut().zip(b.sheets.iter()) {
            if s.id.is_none() {
                s.id = Some(o.id.clone());
            }
            if s.part.is_none() {
                s.part = Some(o.part.clone());
            }
            if s.rest.is_none() {
                s.rest = Some(sheet_rest(&o.xml));
                s.views_default = false;
            }
        }
        if self.m.active.is_none() {
            self.m.active = self.m.sheets.get(b.active()).map(|s| s.uid);
        }
        if self.m.wb_rest.is_none() {
            self.m.wb_rest = Some(wb_rest(&b.wb));
            self.m.names.clear();
            self.m.views = b.views.clone();
            self.m.set.clear();
        }
    }
    fn cmp_names(&mut self, b: &Book) {
        let want: Vec<String> = self.m.sheets.iter().map(|s| s.name.clone()).collect();
        let got: Vec<String> = b.sheets.iter().map(|s| s.name.clone()).collect();
        if want != got {
            self.bad(A_NAMES, format!("saved sheets are {got:?} instead of {want:?}"));
            return;
        }
        for i in 0..got.len() {
            let (s, o) = (&self.m.sheets[i], &b.sheets[i]);
            let (name, st, id, attrs) = (s.name.clone(), s.state.clone(), s.id.clone(), s.attrs.clone());
            if st != o.state && !(st == "hidden" && o.state == "veryHidden") {
                self.bad(A_STATE | A_WB, format!("sheet {name:?} is {} instead of {st}", o.state));
            }
            if let Some(id) = id {
                if id != o.id {
                    self.bad(A_NAMES | A_STR | A_WB, format!("sheetId of {name:?} is {} instead of {id}", o.id));
                }
            }
            let oa = sheet_attrs(&b.wb, &name);
            if self.m.sheets[i].src && oa != attrs {
                self.bad(A_WB | A_NAMES, format!("attributes of sheet {name:?}: {attrs:?} became {oa:?}"));
            }
        }
        if !b.sheets.is_empty() {
            let a = b.active();
            match self.m.active.and_then(|u| self.m.by_uid(u)) {
                Some(i) if i != a => self.bad(A_STATE, format!("active sheet is number {a} instead of {i}")),
                _ if a >= b.sheets.len() => self.bad(A_STATE | A_STR, format!("active sheet {a} of {}", b.sheets.len())),
                _ => {}
            }
        }
    }
    fn cmp_sheet(&mut self, i: usize, b: &Book) {
        let o = &b.sheets[i];
        let n = o.name.clone();
        let s = self.m.sheets[i].clone();
        if let Some((part, raw)) = &s.raw {
            match b.pkg.parts.get(part) {
                Some(x) if x == raw => {}
                Some(_) => self.bad(A_REST | A_PARTS | A_GRID, format!("sheet {n:?} was not opened but its part changed")),
                None => self.bad(A_REST | A_PARTS | A_GRID, format!("sheet {n:?} was not opened but its part is gone")),
            }
            return;
        }
        for p in o.order.iter().chain(&o.spans) {
            self.bad(A_ORDER, format!("sheet {n:?}: {p}"));
        }
        // grid
        let got = nonvoid(&o.grid);
        for (k, c) in &s.grid {
            let at = wb::cref(k.0, k.1);
            match got.get(k) {
                None => self.bad(A_GRID, format!("{n}!{at}: {c:?} is missing")),
                Some(g) => {
                    if g.kind != c.kind {
                        self.bad(A_GRID | A_SST, format!("{n}!{at}: {:?} instead of {:?}", g.kind, c.kind));
                    }
                    if g.f != c.f {
                        self.bad(A_GRID, format!("{n}!{at}: formula {:?} instead of {:?}", g.f, c.f));
                    }
                    if g.extra != c.extra {
                        self.bad(A_GRID | A_REST, format!("{n}!{at}: {:?} instead of {:?}", g.extra, c.extra));
                    }
                    if let Err(e) = self.style_ok(&b.styles, c.s, g.s) {
                        self.bad(A_GRID | A_STYLES, format!("{n}!{at}: {e}"));
                    }
                }
            }
        }
        for (k, c) in &got {
            if !s.grid.contains_key(k) {
                self.bad(A_GRID, format!("{n}!{}: {c:?} appeared", wb::cref(k.0, k.1)));
            }
        }
        // a shared formula is defined once; the cells that share it only name it
        let group = |c: &Cell| c.f.as_ref().filter(|f| f.1.iter().any(|a| a == &("t".to_string(), "shared".to_string()))).and_then(|f| f.1.iter().find(|a| a.0 == "si").map(|a| (a.1.clone(), f.0.is_empty())));
        let defined: BTreeSet<String> = got.values().filter_map(&group).filter(|g| !g.1).map(|g| g.0).collect();
        let used: BTreeSet<String> = got.values().filter_map(&group).map(|g| g.0).collect();
        for g in used.difference(&defined) {
            self.bad(A_REST, format!("sheet {n:?}: the cells sharing formula {g} have lost it, its defining cell was overwritten"));
        }
        // dimension: present, and covers exactly the cells
        let want_dim = match o.bbox {
            None => "A1".to_string(),
            Some((a, c, x, y)) if (a, c) == (x, y) => wb::cref(a, c),
            Some((a, c, x, y)) => format!("{}:{}", wb::cref(a, c), wb::cref(x, y)),
        };
        if o.dimension.as_deref() != Some(want_dim.as_str()) {
            self.bad(A_ORDER, format!("sheet {n:?}: dimension {:?} but cells cover {want_dim}", o.dimension));
        }
        // rows
        let rows: BTreeSet<u32> = s.rows.keys().chain(o.rows.keys()).copied().collect();
        for r in rows {
            let mut w = s.rows.get(&r).cloned().unwrap_or_default();
            let mut g = o.rows.get(&r).cloned().unwrap_or_default();
            match (w.style, g.style) {
                (Some(ws), Some(gs)) => {
                    if let Err(e) = self.style_ok(&b.styles, ws, gs) {
                        self.bad(A_ROWS | A_STYLES, format!("{n} row {r}: {e}"));
                    }
                    w.style = None;
                    g.style = None;
                }
                _ => {}
            }
            if w != g {
                self.bad(A_ROWS, format!("{n} row {r}: {g:?} instead of {w:?}"));
            }
        }
        // columns
        let mut last = 0;
        for (a, z, _) in &o.col_ranges {
            if *a == 0 || a > z || *z > 16384 || *a <= last {
                self.bad(A_COLS | A_ORDER, format!("sheet {n:?}: column range {a}..{z} after {last}"));
            }
            last = *z;
        }
        let mut pts = BTreeSet::new();
        for (a, z) in s.cols.iter().map(|c| (c.0, c.1)).chain(o.col_ranges.iter().map(|c| (c.0, c.1))) {
            for p in [a.saturating_sub(1), a, z, z + 1] {
                if (1..=16384).contains(&p) {
                    pts.insert(p);
                }
            }
        }
        for p in pts {
            let g = o.col_ranges.iter().find(|(a, z, _)| *a <= p && p <= *z).map(|c| c.2.clone()).unwrap_or_default();
            let w = s.cols.iter().find(|(a, z, _)| *a <= p && p <= *z);
            let alts = w.map(|w| w.2.clone()).unwrap_or(vec![wb::Col::default()]);
            let ok = alts.iter().any(|w| {
                let (mut w, mut g) = (w.clone(), g.clone());
                if w.style >= REQ && self.style_ok(&b.styles, w.style, g.style).is_ok() {
                    w.style = 0;
                    g.style = 0;
                }
                w == g
            });
            if !ok {
                self.bad(A_COLS, format!("{n} column {p}: {g:?} instead of {alts:?}"));
            }
        }
        // the rest
        if let Some(e) = order_of(&o.xml, WS_ORDER) {
            self.bad(A_REST | A_ORDER, format!("sheet {n:?}: {e}"));
        }
        if let Some(w) = &s.rest {
            let mut g = sheet_rest(&o.xml);
            if s.views_default {
                g.kids.retain(|k| !matches!(k, Node::E(x) if x.name.ns == wb::X && x.local() == "sheetViews" && x.elems().count() == 1 && x.elems().all(|v| v.attrs.len() == 1 && v.at("workbookViewId") == Some("0") && v.kids.is_empty())));
            }
            if let Some(d) = diff(w, &g) {
                self.bad(A_REST, format!("sheet {n:?}: {d}"));
            }
        }
    }
    fn cmp_wb(&mut self, b: &Book) {
        if let Some(e) = order_of(&b.wb, WB_ORDER) {
            self.bad(A_WB | A_REST, format!("workbook: {e}"));
        }
        if let Some(w) = &self.m.wb_rest {
            if let Some(d) = diff(w, &wb_rest(&b.wb)) {
                self.bad(A_WB, format!("workbook: {d}"));
            }
        }
        let mut got = vec![];
        if let Some(d) = b.wb.kid("definedNames") {
            if d.elems().next().is_none() {
                self.bad(A_WB, "workbook: empty definedNames");
            }
            for e in d.elems() {
                got.push(e.clone());
            }
        }
        let want: Vec<Elem> = self
            .m
            .names
            .iter()
            .map(|(e, l)| {
                let mut e = e.clone();
                if let Some(u) = l {
                    let i = self.m.by_uid(*u).expect("harness: local name");
                    e.attrs.insert(xml::Name { ns: String::new(), local: "localSheetId".into() }, i.to_string());
                }
                e
            })
            .collect();
        if want.len() != got.len() {
            self.bad(A_WB, format!("workbook: {} defined names instead of {}", got.len(), want.len()));
        } else {
            for (w, g) in want.iter().zip(&got) {
                if let Some(d) = diff(w, g) {
                    self.bad(A_WB, format!("workbook: {d}"));
                }
            }
        }
    }
    fn cmp_views(&mut self, b: &Book) {
        const SET: &[(&str, &str)] = &[("visibility", "visible"), ("minimized", "false"), ("showSheetTabs", "true"), ("showVerticalScroll", "true"), ("showHorizontalScroll", "true")];
        let norm = |k: &str, v: &str| -> String {
            if k == "visibility" {
                v.to_string()
            } else {
                match v {
                    "1" | "true" => "true".into(),
                    "0" | "false" => "false".into(),
                    o => o.to_string(),
                }
            }
        };
        let views = self.m.views.clone();
        if b.views.len() != views.len() && !(views.is_empty() && b.views.len() == 1) {
            self.bad(A_VIEWS | A_WB, format!("{} workbook views instead of {}", b.views.len(), views.len()));
            return;
        }
        let empty = BTreeMap::new();
        for i in 0..views.len().max(1) {
            let w = views.get(i).unwrap_or(&empty);
            let g = b.views.get(i).unwrap_or(&empty);
            let keys: BTreeSet<&String> = w.keys().chain(g.keys()).collect();
            for k in keys {
                if SET.iter().any(|(s, _)| s == k) || k == "activeTab" || k == "firstSheet" {
                    continue;
                }
                if w.get(k) != g.get(k) && !(views.is_empty() && self.src.is_none()) {
                    self.bad(A_VIEWS | A_WB, format!("workbook view {i}: {k} is {:?} instead of {:?}", g.get(k), w.get(k)));
                }
            }
            for (k, dflt) in SET {
                let mut want = w.get(*k).map(|v| norm(k, v)).unwrap_or(dflt.to_string());
                if i == 0 {
                    if let Some(s) = self.m.set.get(k) {
                        want = s.clone();
                    }
                }
                let got = g.get(*k).map(|v| norm(k, v)).unwrap_or(dflt.to_string());
                if got != want && !(views.is_empty() && self.m.wb_rest.is_none() && !self.m.set.contains_key(k)) {
                    self.bad(A_VIEWS, format!("workbook view {i}: {k} is {got} instead of {want}"));
                }
            }
            // positions
            let n = b.sheets.len();
            for k in ["firstSheet", "activeTab"] {
                let gv = g.get(k).and_then(|s| s.parse::<usize>().ok());
                if gv.is_some_and(|x| x >= n && n > 0) {
                    self.bad(A_VIEWS | A_STATE | A_STR, format!("workbook view {i}: {k} {gv:?} of {n} sheets"));
                }
                if !self.m.deleted && !(i == 0 && k == "activeTab") && !views.is_empty() {
                    let wv = w.get(k).map(|s| s.as_str()).unwrap_or("0");
                    let gv = g.get(k).map(|s| s.as_str()).unwrap_or("0");
                    if wv != gv {
                        self.bad(A_VIEWS | A_WB, format!("workbook view {i}: {k} is {gv} instead of {wv}"));
                    }
                }
            }
            if i == 0 {
                if let Some(Some(u)) = self.m.first {
                    let want = self.m.by_uid(u).unwrap();
                    let got = g.get("firstSheet").and_then(|s| s.parse().ok()).unwrap_or(0);
                    if want != got {
                        self.bad(A_VIEWS | A_STATE, format!("first sheet tab is number {got} instead of {want}"));
                    }
                }
            }
        }
    }
    fn cmp_sst(&mut self, b: &Book) {
        let Some(src) = &self.src else {
            for (i, e) in b.sst.iter().enumerate() {
                if e.elems().any(|k| k.local() != "t") {
                    self.bad(A_SST, format!("shared string {i} is not plain"));
                }
            }
            return;
        };
        let a = src.sst.clone();
        let sp = src.sst_part.clone();
        if sp.is_some() && b.sst_part.is_none() {
            self.bad(A_SST, "the shared string part is gone");
            return;
        }
        for (i, e) in a.iter().enumerate() {
            match b.sst.get(i) {
                None => self.bad(A_SST, format!("shared string {i} lost")),
                Some(g) => {
                    if let Some(d) = diff(e, g) {
                        self.bad(A_SST, format!("shared string {i}: {d}"));
                    }
                }
            }
        }
        for (i, e) in b.sst.iter().enumerate().skip(a.len()) {
            if !matches!(wb::si_kind(e), Kind::Text(_)) {
                self.bad(A_SST, format!("new shared string {i} is not plain"));
            }
        }
        if let (Some(p), Some(q)) = (sp, &b.sst_part) {
            let rest = |x: &[u8]| -> Option<Elem> {
                let mut e = xml::parse(x).ok()?;
                e.kids.retain(|k| !matches!(k, Node::E(x) if x.local() == "si"));
                e.attrs.retain(|k, _| k.local != "count" && k.local != "uniqueCount");
                Some(e)
            };
            if let (Some(x), Some(y)) = (rest(&self.src.as_ref().unwrap().pkg.parts[&p]), b.pkg.parts.get(q).and_then(|x| rest(x))) {
                if let Some(d) = diff(&x, &y) {
                    self.bad(A_SST, format!("shared string part: {d}"));
                }
            }
        }
    }
    fn cmp_calc(&mut self, b: &Book) {
        let mut seen = BTreeSet::new();
        let mut got = vec![];
        for c in b.calc.iter().flatten() {
            let Some(id) = &c.sheet else {
                self.bad(A_CALC, format!("calculation entry {} names no sheet", c.r));
                continue;
            };
            let Some(i) = b.sheets.iter().position(|s| s.id == *id) else {
                self.bad(A_CALC, format!("calculation entry {} of sheet {id}, which does not exist", c.r));
                continue;
            };
            let at = wb::parse_ref(&c.r);
            if !at.is_some_and(|at| b.sheets[i].grid.get(&at).is_some_and(|c| c.f.is_some())) {
                self.bad(A_CALC, format!("calculation entry {} of sheet {:?} is no formula", c.r, b.sheets[i].name));
            }
            if !seen.insert((i, c.r.clone())) {
                self.bad(A_CALC, format!("calculation entry {} of sheet {:?} twice", c.r, b.sheets[i].name));
            }
            got.push((self.m.sheets[i].uid, c.r.clone(), c.attrs.clone()));
        }
        if b.calc.as_ref().is_some_and(|c| c.is_empty()) {
            self.bad(A_CALC, "the calculation chain is empty");
        }
        let mut pos = 0;
        for w in self.m.calc.clone() {
            match got.iter().position(|g| *g == w) {
                None => self.bad(A_CALC, format!("calculation entry {w:?} lost or changed")),
                Some(p) => {
                    if p < pos {
                        self.bad(A_CALC, format!("calculation entry {w:?} moved"));
                    }
                    pos = p;
                }
            }
        }
    }
    fn cmp_styles(&mut self, b: &Book) {
        if let Some(st) = &b.styles {
            if let Some(a) = self.src.as_ref().and_then(|s| s.styles.clone()) {
                for p in sty::preserved(&a, st, diff) {
                    self.bad(A_STYLES, p);
                }
            } else {
                for p in sty::structure(st).into_iter().chain(sty::new_ids(None, st)) {
                    self.bad(A_STYLES, p);
                }
            }
        } else if self.src.as_ref().is_some_and(|s| s.styles.is_some()) {
            self.bad(A_STYLES, "the styles part is gone");
        }
    }
    fn cmp_pkg(&mut self, b: &Book) {
        let src = self.src.as_ref().map(|s| s.pkg.clone());
        let mut opc = b.pkg.validate(src.as_ref());
        // parts that belonged to a deleted sheet may stay behind
        if self.m.deleted {
            opc.retain(|p| match (p.strip_suffix(" is not reachable through relationships"), &src) {
                (Some(n), Some(s)) => {
                    let n = n.trim_start_matches("part ");
                    !(s.parts.contains_key(n) && s.content_type(n) != Some(fx::CT_WS))
                }
                _ => true,
            });
        }
        for p in opc {
            self.bad(A_OPC, p);
        }
        let (Some(src), Some(sb)) = (src, &self.src) else { return };
        let sb = sb.clone();
        // parts of deleted sheets are gone
        let live: BTreeSet<&str> = self.m.sheets.iter().filter(|s| s.src).filter_map(|s| s.part.as_deref()).collect();
        let mut gone = vec![];
        for s in &sb.sheets {
            if !live.contains(s.part.as_str()) {
                gone.push(s.part.clone());
            }
        }
        let live_new: BTreeSet<String> = b.sheets.iter().map(|s| s.part.clone()).collect();
        for g in &gone {
            if live_new.contains(g) {
                continue; // the name serves a new sheet
            }
            for n in [g.clone(), opc::rels_name(g)] {
                if b.pkg.parts.contains_key(&n) {
                    self.bad(A_OPC | A_NAMES, format!("part {n} of a deleted sheet is still there"));
                }
            }
            if b.pkg.overrides.iter().any(|(n, _)| n == &format!("/{g}")) {
                self.bad(A_OPC | A_NAMES, format!("content type of {g} of a deleted sheet is still there"));
            }
        }
        if self.aspects & A_PARTS == 0 {
            return;
        }
        // parts only a deleted sheet used
        let mut free = BTreeSet::new();
        if !gone.is_empty() {
            let mut todo = gone.clone();
            while let Some(x) = todo.pop() {
                for r in src.rels(&x).unwrap_or_default() {
                    if !r.external && free.insert(r.part.clone()) {
                        todo.push(r.part);
                    }
                }
            }
            // what something else leads to as well is not theirs
            let mut todo = vec![String::new()];
            let mut seen: BTreeSet<String> = gone.iter().cloned().collect();
            while let Some(x) = todo.pop() {
                for r in src.rels(&x).unwrap_or_default() {
                    if !r.external && seen.insert(r.part.clone()) {
                        free.remove(&r.part);
                        todo.push(r.part);
                    }
                }
            }
        }
        for p in parts_kept(&src, &b.pkg, &|n| {
            gone.iter().any(|g| n == g || n == opc::rels_name(g)) || free.iter().any(|f| n == f || n == opc::rels_name(f)) || sb.sheets.iter().any(|s| s.part == n)
        }, &gone) {
            self.bad(A_PARTS, p);
        }
    }
}

/// Every part of the source the library has no business with is in the result, unchanged; parts it
/// may rewrite are compared by information content of their relationships only.
pub fn parts_kept(src: &Package, got: &Package, skip: &dyn Fn(&str) -> bool, gone: &[String]) -> Vec<String> {
    let mut out = vec![];
    let wbp = src.rel_target("", opc::R_DOC).unwrap_or_default();
    let mut ours: BTreeSet<String> = BTreeSet::new();
    ours.insert(wbp.clone());
    for r in src.rels(&wbp).unwrap_or_default() {
        if [opc::R_STYLES, opc::R_SST, opc::R_CALC, opc::R_THEME].contains(&r.ty.as_str()) {
            ours.insert(r.part);
        }
    }
    if let Some(c) = src.rel_target("", opc::R_CORE) {
        ours.insert(c);
    }
    for (n, data) in &src.parts {
        if skip(n) {
            continue;
        }
        let Some(g) = got.parts.get(n) else {
            if src.rel_target(&wbp, opc::R_CALC).as_deref() == Some(n) {
                continue; // decided with the calculation chain
            }
            out.push(format!("part {n} is gone"));
            continue;
        };
        if src.content_type(n) != got.content_type(n) {
            out.push(format!("content type of {n}: {:?} became {:?}", src.content_type(n), got.content_type(n)));
        }
        if let Some(s) = opc::rels_source(n) {
            let (a, b) = (src.rels(&s), got.rels(&s));
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    for r in &a {
                        if gone.contains(&r.part) && s == wbp {
                            continue;
                        }
                        match b.iter().find(|x| x.id == r.id) {
                            Some(x) if x.ty == r.ty && x.external == r.external && (x.target == r.target || (!r.external && x.part == r.part && x.target.split_once('#').map(|y| y.1) == r.target.split_once('#').map(|y| y.1))) => {}
                            Some(x) => out.push(format!("{n}: relationship {r:?} became {x:?}")),
                            None => {
                                if r.ty == opc::R_CALC {
                                    continue;
                                }
                                out.push(format!("{n}: relationship {r:?} is gone"))
                            }
                        }
                    }
                    if s != wbp && !s.is_empty() && b.len() != a.len() {
                        out.push(format!("{n}: {} relationships instead of {}", b.len(), a.len()));
                    }
                }
                (Ok(_), Err(e)) => out.push(e),
                (Err(_), _) => {
                    if data != g {
                        out.push(format!("{n} changed"));
                    }
                }
            }
            continue;
        }
        if ours.contains(n) {
            continue;
        }
        if data != g {
            out.push(format!("part {n} changed ({} bytes became {})", data.len(), g.len()));
        }
    }
    // defaults stay
    for (e, c) in &src.defaults {
        if !got.defaults.iter().any(|(x, d)| x.eq_ignore_ascii_case(e) && d == c) {
            out.push(format!("default content type {e} = {c} is gone or changed"));
        }
    }
    out
}
pub fn show_ops(src: &str, ops: &[Op]) -> String {
    format!("{src}: {}", ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join(", "))
}
/// Whether an operation can follow at all, by the occupation of the slots alone.
fn may_follow(seq: &[u8], ops: &[Op], op: &Op) -> bool {
    let mut occ = 0u32;
    for s in seq {
        match &ops[*s as usize] {
            Op::Get(i, _) | Op::Add(i, _) => occ |= 1 << i,
            Op::Drop(i) | Op::Del(i) => occ &= !(1 << i),
            Op::Reopen => occ = 0,
            Op::SaveOut => return false,
            _ => {}
        }
    }
    match op {
        Op::Get(i, _) | Op::Add(i, _) => occ & (1 << i) == 0,
        Op::Drop(i) | Op::Del(i) | Op::Do(i, _) => occ & (1 << i) != 0,
        Op::SaveOut => occ != 0,
        _ => true,
    }
}
pub fn sequences(ops: &[Op], depth: u32) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    let mut level: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..depth {
        let mut next = vec![];
        for s in &level {
            for (j, op) in ops.iter().enumerate() {
                if may_follow(s, ops, op) {
                    let mut t = s.clone();
                    t.push(j as u8);
                    next.push(t);
                }
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    out
}
pub type Sources = Vec<(&'static str, Option<Vec<u8>>)>;
/// A space of all sequences over an alphabet, up to a length, from each of the sources.
pub fn seq_space(name: &str, bound: &str, sources: Sources, ops: Vec<Op>, depth: u32, aspects: u32) -> Space {
    let seqs = std::sync::Arc::new(sequences(&ops, depth));
    let total = (seqs.len() * sources.len()) as u64;
    let bound = format!("{bound}; {} operations, length up to {depth}, {} sources", ops.len(), sources.len());
    let sources = std::sync::Arc::new(sources);
    let ops = std::sync::Arc::new(ops);
    let dec = {
        let (sources, ops) = (sources.clone(), ops.clone());
        move |i: u64| -> (usize, Vec<Op>) {
            let n = sources.len() as u64;
            ((i % n) as usize, seqs[(i / n) as usize].iter().map(|j| ops[*j as usize].clone()).collect())
        }
    };
    let (d2, s2) = (dec.clone(), sources.clone());
    Space::new(
        name,
        &bound,
        total,
        move |i| {
            let (s, v) = dec(i);
            show_ops(s2[s].0, &v)
        },
        move |i, sc| {
            let (s, v) = d2(i);
            Sim::run(sources[s].1.as_deref(), aspects, sc, &v)
        },
    )
}
