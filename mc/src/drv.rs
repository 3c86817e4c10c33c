//! Drives the real library through its public API. Every call is guarded: a panic is a result.
use crate::engine::{guard, Scratch};
pub use draviavemal_openxml_office::spreadsheet_2007::models::*;
pub use draviavemal_openxml_office::spreadsheet_2007::parts::WorkSheet;
use draviavemal_openxml_office::spreadsheet_2007::{Excel, ExcelPropertiesModel};
use draviavemal_openxml_office::{document_2007::Word, presentation_2007::PowerPoint};

/// Ok, Err(message) or a panic.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Res<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> Res<T> {
    pub fn is_ok(&self) -> bool {
        matches!(self, Res::Ok(_))
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Res::Err(_))
    }
    pub fn panic(&self) -> Option<&str> {
        match self {
            Res::Panic(p) => Some(p),
            _ => None,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Res::Ok(_) => "ok".into(),
            Res::Err(e) => format!("error: {e}"),
            Res::Panic(p) => p.clone(),
        }
    }
}
pub fn call<T>(f: impl FnOnce() -> Result<T, anyhow_shim::Error>) -> Res<T> {
    match guard(f) {
        Ok(Ok(v)) => Res::Ok(v),
        Ok(Err(e)) => Res::Err(format!("{e:#}").chars().take(300).collect()),
        Err(p) => Res::Panic(p),
    }
}
pub mod anyhow_shim {
    pub use anyhow::Error;
}

pub fn model() -> ExcelPropertiesModel {
    ExcelPropertiesModel { is_in_memory: in_memory(), is_editable: true }
}
thread_local! {
    static IN_MEMORY: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
}
/// The setting that documents of this thread are opened with; no property depends on it.
pub fn set_in_memory(yes: bool) {
    IN_MEMORY.with(|m| m.set(yes))
}
fn in_memory() -> bool {
    IN_MEMORY.with(|m| m.get())
}
fn word_model() -> draviavemal_openxml_office::document_2007::WordPropertiesModel {
    let mut m = Word::default();
    m.is_in_memory = in_memory();
    m
}
fn ppt_model() -> draviavemal_openxml_office::presentation_2007::PowerPointPropertiesModel {
    let mut m = PowerPoint::default();
    m.is_in_memory = in_memory();
    m
}

pub fn open(path: Option<&str>) -> Res<Xl> {
    let p = path.map(|s| s.to_string());
    match call(|| Excel::new(p, model())) {
        Res::Ok(e) => Res::Ok(Xl { e: Some(e) }),
        Res::Err(e) => Res::Err(e),
        Res::Panic(p) => Res::Panic(p),
    }
}

pub struct Xl {
    pub e: Option<Excel>,
}
macro_rules! m {
    ($name:ident ( $($a:ident : $t:ty),* ) -> $r:ty, $x:ident => $b:expr) => {
        pub fn $name(&mut self, $($a: $t),*) -> Res<$r> {
            let $x = self.e.as_mut().expect("harness: closed");
            let r = call(move || $b);
            self.after(r)
        }
    };
}
impl Xl {
    /// After a panic the object is leaked: its destructors would run on a broken state.
    fn after<T>(&mut self, r: Res<T>) -> Res<T> {
        if matches!(r, Res::Panic(_)) {
            std::mem::forget(self.e.take());
        }
        r
    }
    pub fn alive(&self) -> bool {
        self.e.is_some()
    }
    m!(add(n: Option<&str>) -> WorkSheet, x => x.add_sheet_mut(n.map(|s| s.to_string())));
    m!(get(n: &str) -> WorkSheet, x => x.get_worksheet_mut(n.to_string()));
    m!(rename(a: &str, b: &str) -> (), x => x.rename_sheet_name_mut(a.to_string(), b.to_string()));
    m!(active(n: &str) -> (), x => x.set_active_sheet_mut(n.to_string()));
    m!(hide(n: &str) -> (), x => x.hide_sheet_mut(n.to_string()));
    m!(visibility(b: bool) -> (), x => x.set_visibility_mut(b));
    m!(minimize(b: bool) -> (), x => x.minimize_workbook_mut(b));
    m!(hide_tabs(b: bool) -> (), x => x.hide_sheet_tabs_mut(b));
    m!(hide_v(b: bool) -> (), x => x.hide_vertical_scroll_mut(b));
    m!(hide_h(b: bool) -> (), x => x.hide_horizontal_scroll_mut(b));
    m!(style(s: StyleSetting) -> StyleId, x => x.get_style_id_mut(s));
    m!(list() -> Vec<String>, x => x.list_sheet_names());
    pub fn save(&mut self, path: &str) -> Res<()> {
        let e = self.e.take().expect("harness: closed");
        call(move || e.save_as(path))
    }
    /// Saves and returns the bytes.
    pub fn save_bytes(&mut self, sc: &Scratch) -> Res<Vec<u8>> {
        let p = sc.file("xlsx");
        match self.save(&p) {
            Res::Ok(()) => match std::fs::read(&p) {
                Ok(b) => {
                    let _ = std::fs::remove_file(&p);
                    Res::Ok(b)
                }
                Err(e) => Res::Err(format!("HARNESS-VISIBLE: save reported success but the file cannot be read: {e}")),
            },
            Res::Err(e) => Res::Err(e),
            Res::Panic(p) => Res::Panic(p),
        }
    }
}
impl Drop for Xl {
    fn drop(&mut self) {
        if let Some(e) = self.e.take() {
            let _ = guard(move || drop(e));
        }
    }
}

pub fn ws_call<T>(w: &mut WorkSheet, f: impl FnOnce(&mut WorkSheet) -> Result<T, anyhow::Error>) -> Res<T> {
    call(|| f(w))
}
pub fn ws_drop(w: WorkSheet) -> Option<String> {
    guard(move || drop(w)).err()
}
pub fn ws_delete(w: WorkSheet) -> Res<()> {
    call(move || w.delete_sheet_mut())
}

pub fn cell(v: &str, t: CellDataType) -> CellProperties {
    let mut c = CellProperties::default();
    c.value = Some(v.to_string());
    c.data_type = t;
    c
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum DocKind {
    Excel,
    Word,
    Ppt,
}
/// new(path) then save_as(out)
pub fn roundtrip(kind: DocKind, path: Option<&str>, out: &str) -> Res<()> {
    let p = path.map(|s| s.to_string());
    match kind {
        DocKind::Excel => call(|| Excel::new(p, model())?.save_as(out)),
        DocKind::Word => call(|| Word::new(p, word_model())?.save_as(out)),
        DocKind::Ppt => call(|| PowerPoint::new(p, ppt_model())?.save_as(out)),
    }
}
pub fn open_only(kind: DocKind, path: &str) -> Res<()> {
    let p = Some(path.to_string());
    match kind {
        DocKind::Excel => call(|| Excel::new(p, model()).map(|_| ())),
        DocKind::Word => call(|| Word::new(p, word_model()).map(|_| ())),
        DocKind::Ppt => call(|| PowerPoint::new(p, ppt_model()).map(|_| ())),
    }
}
/// new(source bytes), save_as: the bytes of the result. The source file must stay as it was.
pub fn resave(kind: DocKind, src: Option<&[u8]>, sc: &Scratch) -> Res<Vec<u8>> {
    let p = src.map(|b| sc.put("src", b));
    let out = sc.file("out");
    let r = roundtrip(kind, p.as_deref(), &out);
    let res = match r {
        Res::Ok(()) => match std::fs::read(&out) {
            Ok(b) => Res::Ok(b),
            Err(e) => Res::Err(format!("HARNESS-VISIBLE: save reported success but {e}")),
        },
        Res::Err(e) => Res::Err(e),
        Res::Panic(p) => Res::Panic(p),
    };
    if let Some(p) = p {
        let _ = std::fs::remove_file(p);
    }
    let _ = std::fs::remove_file(out);
    res
}
/// Opens a text document or presentation, does something, saves.
pub fn with_doc(kind: DocKind, path: Option<&str>, between: impl FnOnce(), out: &str) -> Res<()> {
    let p = path.map(|s| s.to_string());
    match kind {
        DocKind::Word => call(|| {
            let d = Word::new(p, word_model())?;
            between();
            d.save_as(out)
        }),
        DocKind::Ppt => call(|| {
            let d = PowerPoint::new(p, ppt_model())?;
            between();
            d.save_as(out)
        }),
        DocKind::Excel => call(|| {
            let d = Excel::new(p, model())?;
            between();
            d.save_as(out)
        }),
    }
}
