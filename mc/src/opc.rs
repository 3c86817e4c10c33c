//! Open Packaging Conventions: package model and validity rules.
use crate::{xml, zipio};
use std::collections::{BTreeMap, BTreeSet};

pub const CT_NS: &str = "http://schemas.openxmlformats.org/package/2006/content-types";
pub const REL_NS: &str = "http://schemas.openxmlformats.org/package/2006/relationships";
pub const RELS_CT: &str = "application/vnd.openxmlformats-package.relationships+xml";
pub const R_DOC: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument";
pub const R_CORE: &str = "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties";
pub const R_SHEET: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet";
pub const R_STYLES: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles";
pub const R_SST: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/sharedStrings";
pub const R_CALC: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/calcChain";
pub const R_THEME: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/theme";

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Rel {
    pub id: String,
    pub ty: String,
    pub target: String,
    pub external: bool,
    /// part name (no leading slash) for internal ones
    pub part: String,
}

#[derive(Clone, Debug, Default)]
pub struct Package {
    pub parts: BTreeMap<String, Vec<u8>>,
    pub defaults: Vec<(String, String)>,
    pub overrides: Vec<(String, String)>,
    pub problems: Vec<String>,
}

pub fn resolve(source: &str, target: &str) -> String {
    let t = target.split('#').next().unwrap_or("");
    if let Some(a) = t.strip_prefix('/') {
        return norm(a);
    }
    let dir = match source.rfind('/') {
        Some(i) => &source[..i],
        None => "",
    };
    norm(&format!("{dir}/{t}"))
}
fn norm(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for s in p.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            s => v.push(s),
        }
    }
    v.join("/")
}
/// `xl/_rels/workbook.xml.rels` -> `xl/workbook.xml`; `_rels/.rels` -> ``
pub fn rels_source(name: &str) -> Option<String> {
    let (dir, file) = match name.rfind('/') {
        Some(i) => (&name[..i], &name[i + 1..]),
        None => ("", name),
    };
    let f = file.strip_suffix(".rels")?;
    let d = if dir == "_rels" {
        ""
    } else {
        dir.strip_suffix("/_rels")?
    };
    Some(if d.is_empty() { f.to_string() } else { format!("{d}/{f}") })
}
pub fn rels_name(source: &str) -> String {
    match source.rfind('/') {
        Some(i) => format!("{}/_rels/{}.rels", &source[..i], &source[i + 1..]),
        None => format!("_rels/{source}.rels"),
    }
}

impl Package {
    pub fn read(bytes: &[u8]) -> Result<Package, String> {
        let entries = zipio::read_zip(bytes)?;
        let mut p = Package::default();
        let mut lower = BTreeSet::new();
        let mut ct = None;
        for e in entries {
            if e.name.ends_with('/') && e.data.is_empty() {
                continue; // a zip directory item is not a part
            }
            if !lower.insert(e.name.to_ascii_lowercase()) {
                p.problems.push(format!("part name {} occurs twice", e.name));
            }
            if e.name.starts_with('/') || e.name.contains("//") || e.name.contains('\\') {
                p.problems.push(format!("bad part name {}", e.name));
            }
            if e.name == "[Content_Types].xml" {
                ct = Some(e.data);
            } else {
                p.parts.insert(e.name, e.data);
            }
        }
        let ct = ct.ok_or("no [Content_Types].xml")?;
        let root = xml::parse(&ct).map_err(|e| format!("[Content_Types].xml: {e}"))?;
        if root.name.ns != CT_NS || root.name.local != "Types" {
            p.problems.push("[Content_Types].xml: wrong root".into());
        }
        for e in root.elems() {
            let c = e.at("ContentType").unwrap_or("").to_string();
            match e.local() {
                "Default" => p.defaults.push((e.at("Extension").unwrap_or("").to_string(), c)),
                "Override" => p.overrides.push((e.at("PartName").unwrap_or("").to_string(), c)),
                o => p.problems.push(format!("[Content_Types].xml: element {o}")),
            }
        }
        Ok(p)
    }
    pub fn content_type(&self, part: &str) -> Option<&str> {
        let pn = format!("/{part}");
        if let Some((_, c)) = self.overrides.iter().find(|(n, _)| n.eq_ignore_ascii_case(&pn)) {
            return Some(c);
        }
        let file = part.rsplit('/').next().unwrap();
        let ext = file.rsplit_once('.')?.1;
        self.defaults.iter().find(|(e, _)| e.eq_ignore_ascii_case(ext)).map(|(_, c)| c.as_str())
    }
    pub fn rels(&self, source: &str) -> Result<Vec<Rel>, String> {
        let n = rels_name(source);
        match self.parts.get(&n) {
            None => Ok(vec![]),
            Some(b) => parse_rels(b, source).map_err(|e| format!("{n}: {e}")),
        }
    }
    pub fn rel_target(&self, source: &str, ty: &str) -> Option<String> {
        self.rels(source).ok()?.into_iter().find(|r| r.ty == ty && !r.external).map(|r| r.part)
    }
    pub fn is_xml_part(&self, name: &str) -> bool {
        name.ends_with(".xml")
            || name.ends_with(".rels")
            || self.content_type(name).is_some_and(|c| c.ends_with("+xml") || c.ends_with("/xml"))
    }
    pub fn reachable(&self) -> BTreeSet<String> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![String::new()];
        while let Some(s) = todo.pop() {
            if let Ok(rs) = self.rels(&s) {
                for r in rs {
                    if !r.external && self.parts.contains_key(&r.part) && seen.insert(r.part.clone()) {
                        todo.push(r.part);
                    }
                }
            }
        }
        seen
    }
    /// All rule violations of this package. `source` is the package it was made from, whose own
    /// unreachable parts and dangling relationships are not held against the result.
    pub fn validate(&self, source: Option<&Package>) -> Vec<String> {
        let mut out = self.problems.clone();
        let mut seen = BTreeSet::new();
        for (e, c) in &self.defaults {
            if e.is_empty() || c.is_empty() {
                out.push(format!("empty Default declaration ({e:?}, {c:?})"));
            }
            if !seen.insert(e.to_ascii_lowercase()) {
                out.push(format!("Default for {e:?} declared twice"));
            }
        }
        let mut seen = BTreeSet::new();
        for (n, c) in &self.overrides {
            if c.is_empty() {
                out.push(format!("Override for {n} without content type"));
            }
            if !seen.insert(n.to_ascii_lowercase()) {
                out.push(format!("Override for {n} declared twice"));
            }
            match n.strip_prefix('/') {
                Some(p) if self.parts.contains_key(p) => {}
                _ => {
                    let was = source.is_some_and(|s| {
                        s.overrides.iter().any(|(m, _)| m == n) && !s.parts.contains_key(n.trim_start_matches('/'))
                    });
                    if !was {
                        out.push(format!("Override for {n}, which is not in the package"));
                    }
                }
            }
        }
        for n in self.parts.keys() {
            match self.content_type(n) {
                None => {
                    if !source.is_some_and(|s| s.parts.contains_key(n) && s.content_type(n).is_none()) {
                        out.push(format!("part {n} has no content type"))
                    }
                }
                Some(c) => {
                    if n.ends_with(".rels") && c != RELS_CT {
                        out.push(format!("part {n} has content type {c}"));
                    }
                }
            }
            if self.is_xml_part(n) {
                if let Err(e) = xml::parse(&self.parts[n]) {
                    let same = source.is_some_and(|s| s.parts.get(n) == self.parts.get(n));
                    if !same {
                        out.push(format!("part {n} is not well-formed: {e}"));
                    }
                }
            }
            if let Some(src) = rels_source(n) {
                if !src.is_empty() && !self.parts.contains_key(&src) {
                    if !source.is_some_and(|s| s.parts.contains_key(n) && !s.parts.contains_key(&src)) {
                        out.push(format!("relationships part {n} has no source part"));
                    }
                }
                match self.rels(&src) {
                    Err(e) => out.push(e),
                    Ok(rs) => {
                        let mut ids = BTreeSet::new();
                        let src_rels = source.and_then(|s| s.rels(&src).ok()).unwrap_or_default();
                        for r in &rs {
                            if !ids.insert(r.id.clone()) {
                                out.push(format!("{n}: relationship id {} twice", r.id));
                            }
                            if r.id.is_empty() || r.ty.is_empty() || r.target.is_empty() {
                                out.push(format!("{n}: incomplete relationship {r:?}"));
                            }
                            if !r.external && !self.parts.contains_key(&r.part) {
                                let was = source.is_some_and(|s| {
                                    src_rels.iter().any(|q| q.id == r.id && q.part == r.part)
                                        && !s.parts.contains_key(&r.part)
                                });
                                if !was {
                                    out.push(format!("{n}: {} leads to {}, which is not in the package", r.id, r.part));
                                }
                            }
                        }
                    }
                }
            }
        }
        let reach = self.reachable();
        let sreach = source.map(|s| s.reachable());
        for n in self.parts.keys() {
            if rels_source(n).is_some() || reach.contains(n) {
                continue;
            }
            let was_orphan = match (source, &sreach) {
                (Some(s), Some(sr)) => s.parts.contains_key(n) && !sr.contains(n),
                _ => false,
            };
            if !was_orphan {
                out.push(format!("part {n} is not reachable through relationships"));
            }
        }
        out
    }
}

pub fn parse_rels(b: &[u8], source: &str) -> Result<Vec<Rel>, String> {
    let root = xml::parse(b)?;
    if root.name.ns != REL_NS || root.name.local != "Relationships" {
        return Err("wrong root element".into());
    }
    let mut v = vec![];
    for e in root.elems() {
        if e.name.local != "Relationship" || e.name.ns != REL_NS {
            return Err(format!("unexpected element {}", e.name.local));
        }
        let g = |k: &str| e.at(k).unwrap_or("").to_string();
        let external = match e.at("TargetMode") {
            None | Some("Internal") => false,
            Some("External") => true,
            Some(o) => return Err(format!("TargetMode {o}")),
        };
        let target = g("Target");
        v.push(Rel {
            part: if external { String::new() } else { resolve(source, &target) },
            id: g("Id"),
            ty: g("Type"),
            target,
            external,
        });
    }
    Ok(v)
}
