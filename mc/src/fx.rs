//! Hand-built source packages (the initial states).
use crate::opc::*;
use crate::xml::esc_attr;
use crate::zipio::write_zip;

pub const X: &str = "http://schemas.openxmlformats.org/spreadsheetml/2006/main";
pub const R: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
pub const CT_WB: &str = "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml";
pub const CT_WS: &str = "application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml";
pub const CT_SST: &str = "application/vnd.openxmlformats-officedocument.spreadsheetml.sharedStrings+xml";
pub const CT_STY: &str = "application/vnd.openxmlformats-officedocument.spreadsheetml.styles+xml";
pub const CT_CALC: &str = "application/vnd.openxmlformats-officedocument.spreadsheetml.calcChain+xml";
pub const CT_CORE: &str = "application/vnd.openxmlformats-package.core-properties+xml";
pub const CT_THEME: &str = "application/vnd.openxmlformats-officedocument.theme+xml";
pub const R_APP: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/extended-properties";
pub const CT_APP: &str = "application/vnd.openxmlformats-officedocument.extended-properties+xml";
pub const DECL: &str = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n";

#[derive(Clone, Default)]
pub struct Pkg {
    pub parts: Vec<(String, Vec<u8>)>,
    pub defaults: Vec<(String, String)>,
    pub overrides: Vec<(String, String)>,
    pub rels: Vec<(String, Vec<(String, String, String, bool)>)>,
}
impl Pkg {
    pub fn new() -> Pkg {
        let mut p = Pkg::default();
        p.def("rels", RELS_CT);
        p.def("xml", "application/xml");
        p
    }
    pub fn def(&mut self, ext: &str, ct: &str) -> &mut Self {
        self.defaults.push((ext.into(), ct.into()));
        self
    }
    pub fn part(&mut self, name: &str, ct: Option<&str>, data: impl Into<Vec<u8>>) -> &mut Self {
        self.parts.push((name.into(), data.into()));
        if let Some(c) = ct {
            self.overrides.push((format!("/{name}"), c.into()));
        }
        self
    }
    pub fn rel(&mut self, source: &str, id: &str, ty: &str, target: &str, external: bool) -> &mut Self {
        let r = (id.to_string(), ty.to_string(), target.to_string(), external);
        match self.rels.iter_mut().find(|(s, _)| s == source) {
            Some((_, v)) => v.push(r),
            None => self.rels.push((source.into(), vec![r])),
        }
        self
    }
    pub fn core(&mut self, xml: &str) -> &mut Self {
        self.part("docProps/core.xml", Some(CT_CORE), xml);
        self.rel("", "rIdCore", R_CORE, "docProps/core.xml", false)
    }
    pub fn entries(&self) -> Vec<(String, Vec<u8>)> {
        let mut ct = format!("{DECL}<Types xmlns=\"{CT_NS}\">");
        for (e, c) in &self.defaults {
            ct.push_str(&format!("<Default Extension=\"{}\" ContentType=\"{}\"/>", esc_attr(e), esc_attr(c)));
        }
        for (e, c) in &self.overrides {
            ct.push_str(&format!("<Override PartName=\"{}\" ContentType=\"{}\"/>", esc_attr(e), esc_attr(c)));
        }
        ct.push_str("</Types>");
        let mut v = vec![("[Content_Types].xml".to_string(), ct.into_bytes())];
        for (s, rs) in &self.rels {
            let mut x = format!("{DECL}<Relationships xmlns=\"{REL_NS}\">");
            for (id, ty, t, ext) in rs {
                x.push_str(&format!(
                    "<Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"{}/>",
                    esc_attr(id),
                    esc_attr(ty),
                    esc_attr(t),
                    if *ext { " TargetMode=\"External\"" } else { "" }
                ));
            }
            x.push_str("</Relationships>");
            v.push((rels_name(s), x.into_bytes()));
        }
        v.extend(self.parts.iter().cloned());
        v
    }
    pub fn zip(&self) -> Vec<u8> {
        write_zip(&self.entries())
    }
}

pub const CORE: &str = concat!(
    "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<cp:coreProperties xmlns:cp=\"http://schemas.openxmlformats.org/package/2006/metadata/core-properties\" xmlns:dc=\"http://purl.org/dc/elements/1.1/\" xmlns:dcterms=\"http://purl.org/dc/terms/\" xmlns:dcmitype=\"http://purl.org/dc/dcmitype/\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\">",
    "<dc:creator>Ann</dc:creator><cp:lastModifiedBy>Bob</cp:lastModifiedBy><dcterms:created xsi:type=\"dcterms:W3CDTF\">2001-02-03T04:05:06Z</dcterms:created><dcterms:modified xsi:type=\"dcterms:W3CDTF\">2002-02-03T04:05:06Z</dcterms:modified></cp:coreProperties>");

pub const STYLES: &str = concat!(
    "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<styleSheet xmlns=\"http://schemas.openxmlformats.org/spreadsheetml/2006/main\">",
    "<fonts count=\"1\"><font><sz val=\"11\"/><color theme=\"1\"/><name val=\"Calibri\"/><family val=\"2\"/><scheme val=\"minor\"/></font></fonts>",
    "<fills count=\"2\"><fill><patternFill patternType=\"none\"/></fill><fill><patternFill patternType=\"gray125\"/></fill></fills>",
    "<borders count=\"1\"><border><left/><right/><top/><bottom/><diagonal/></border></borders>",
    "<cellStyleXfs count=\"1\"><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\"/></cellStyleXfs>",
    "<cellXfs count=\"1\"><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\"/></cellXfs>",
    "<cellStyles count=\"1\"><cellStyle name=\"Normal\" xfId=\"0\" builtinId=\"0\"/></cellStyles><dxfs count=\"0\"/><tableStyles count=\"0\" defaultTableStyle=\"TableStyleMedium9\" defaultPivotStyle=\"PivotStyleLight16\"/></styleSheet>");

/// A workbook source. Sheets: (name, extra attributes of the sheet element, worksheet XML).
#[derive(Clone)]
pub struct Wb {
    pub sheets: Vec<(String, String, String)>,
    pub views: String,
    /// children of workbook before bookViews / after sheets
    pub pre: String,
    pub post: String,
    pub wb_attrs: String,
    pub sst: Option<String>,
    pub styles: Option<String>,
    pub calc: Option<String>,
    pub core: Option<String>,
    pub abs_targets: bool,
    pub extra: Pkg,
}
impl Wb {
    pub fn new(names: &[&str]) -> Wb {
        Wb {
            sheets: names.iter().map(|n| (n.to_string(), String::new(), sheet("<sheetData/>"))).collect(),
            views: "<bookViews><workbookView xWindow=\"0\" yWindow=\"0\" windowWidth=\"100\" windowHeight=\"200\"/></bookViews>".into(),
            pre: String::new(),
            post: String::new(),
            wb_attrs: String::new(),
            sst: None,
            styles: Some(STYLES.into()),
            calc: None,
            core: Some(CORE.into()),
            abs_targets: false,
            extra: Pkg::default(),
        }
    }
    pub fn pkg(&self) -> Pkg {
        let mut p = Pkg::new();
        let t = |s: &str| if self.abs_targets { format!("/xl/{s}") } else { s.to_string() };
        p.rel("", "rId1", R_DOC, if self.abs_targets { "/xl/workbook.xml" } else { "xl/workbook.xml" }, false);
        if let Some(c) = &self.core {
            p.core(c);
        }
        let mut sh = String::new();
        for (i, (n, a, x)) in self.sheets.iter().enumerate() {
            let id = if a.contains("sheetId=") { String::new() } else { format!(" sheetId=\"{}\"", i + 1) };
            sh.push_str(&format!("<sheet name=\"{}\"{id} {a} r:id=\"rId{}\"/>", esc_attr(n), i + 1));
            p.rel("xl/workbook.xml", &format!("rId{}", i + 1), R_SHEET, &t(&format!("worksheets/sheet{}.xml", i + 1)), false);
            p.part(&format!("xl/worksheets/sheet{}.xml", i + 1), Some(CT_WS), x.as_str());
        }
        let k = self.sheets.len();
        if let Some(s) = &self.styles {
            p.rel("xl/workbook.xml", &format!("rId{}", k + 1), R_STYLES, &t("styles.xml"), false);
            p.part("xl/styles.xml", Some(CT_STY), s.as_str());
        }
        if let Some(s) = &self.sst {
            p.rel("xl/workbook.xml", &format!("rId{}", k + 2), R_SST, &t("sharedStrings.xml"), false);
            p.part("xl/sharedStrings.xml", Some(CT_SST), s.as_str());
        }
        if let Some(s) = &self.calc {
            p.rel("xl/workbook.xml", &format!("rId{}", k + 3), R_CALC, &t("calcChain.xml"), false);
            p.part("xl/calcChain.xml", Some(CT_CALC), s.as_str());
        }
        let wb = format!(
            "{DECL}<workbook xmlns=\"{X}\" xmlns:r=\"{R}\"{}>{}{}<sheets>{sh}</sheets>{}</workbook>",
            self.wb_attrs, self.pre, self.views, self.post
        );
        p.part("xl/workbook.xml", Some(CT_WB), wb);
        p.defaults.extend(self.extra.defaults.iter().cloned());
        p.overrides.extend(self.extra.overrides.iter().cloned());
        p.parts.extend(self.extra.parts.iter().cloned());
        for (s, v) in &self.extra.rels {
            for (a, b, c, d) in v {
                p.rel(s, a, b, c, *d);
            }
        }
        p
    }
    pub fn zip(&self) -> Vec<u8> {
        self.pkg().zip()
    }
}
pub fn sheet(body: &str) -> String {
    format!("{DECL}<worksheet xmlns=\"{X}\" xmlns:r=\"{R}\">{body}</worksheet>")
}
pub fn sst(items: &str) -> String {
    format!("{DECL}<sst xmlns=\"{X}\">{items}</sst>")
}

/// A word-processing or presentation package with the given core properties part.
pub fn doc_pkg(word: bool, core: Option<&str>) -> Pkg {
    let mut p = Pkg::new();
    let (main, ct, ns, el) = if word {
        ("word/document.xml", "application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml", "http://schemas.openxmlformats.org/wordprocessingml/2006/main", "document")
    } else {
        ("ppt/presentation.xml", "application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml", "http://schemas.openxmlformats.org/presentationml/2006/main", "presentation")
    };
    p.rel("", "rId1", R_DOC, main, false);
    p.part(main, Some(ct), format!("<?xml version='1.0'?><m:{el} xmlns:m='{ns}'><m:x a = '1'> t </m:x><!-- c --></m:{el}>"));
    if let Some(c) = core {
        p.core(c);
    }
    p
}
