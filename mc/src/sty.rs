//! What a style request means, and what a cell format record of a file means.
use crate::drv::*;
use crate::xml::Elem;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Fmt {
    pub font: (String, String, Option<(String, String)>, bool, bool, String),
    pub fill: (String, Option<String>, Option<String>),
    /// left right top bottom diagonal
    pub borders: [(String, Option<(String, String)>); 5],
    pub num: String,
    pub h: String,
    pub v: String,
    pub wrap: bool,
    /// whatever was not requested
    pub extra: Vec<String>,
}
impl Fmt {
    pub fn differs(&self, o: &Fmt) -> Option<String> {
        let mut d = vec![];
        macro_rules! f {
            ($n:literal, $x:expr, $y:expr) => {
                if $x != $y {
                    d.push(format!("{} {:?} instead of {:?}", $n, $y, $x));
                }
            };
        }
        f!("font", self.font, o.font);
        f!("fill", self.fill, o.fill);
        for (i, n) in ["left", "right", "top", "bottom", "diagonal"].iter().enumerate() {
            if self.borders[i] != o.borders[i] {
                d.push(format!("border {n} {:?} instead of {:?}", o.borders[i], self.borders[i]));
            }
        }
        f!("number format", self.num, o.num);
        f!("horizontal", self.h, o.h);
        f!("vertical", self.v, o.v);
        f!("wrap", self.wrap, o.wrap);
        f!("further formatting", self.extra, o.extra);
        if d.is_empty() {
            None
        } else {
            Some(d.join("; "))
        }
    }
}
fn color_of(c: &ColorSetting) -> (String, String) {
    (
        match c.color_setting_type {
            ColorSettingTypeValues::Indexed => "indexed",
            ColorSettingTypeValues::Theme => "theme",
            ColorSettingTypeValues::Rgb => "rgb",
        }
        .to_string(),
        c.value.clone(),
    )
}
pub const NUMS: &[(NumberFormatValues, u32)] = &[
    (NumberFormatValues::General, 0),
    (NumberFormatValues::Integer, 1),
    (NumberFormatValues::DecimalTwoPlaces, 2),
    (NumberFormatValues::ThousandsSeparator, 3),
    (NumberFormatValues::ThousandsSeparatorTwoDecimals, 4),
    (NumberFormatValues::CurrencyNoDecimals, 5),
    (NumberFormatValues::CurrencyNoDecimalsRed, 6),
    (NumberFormatValues::CurrencyTwoDecimals, 7),
    (NumberFormatValues::CurrencyTwoDecimalsRed, 8),
    (NumberFormatValues::Percentage, 9),
    (NumberFormatValues::PercentageTwoDecimals, 10),
    (NumberFormatValues::Scientific, 11),
    (NumberFormatValues::FractionOneDigit, 12),
    (NumberFormatValues::FractionTwoDigits, 13),
    (NumberFormatValues::DateMMDDYY, 14),
    (NumberFormatValues::DateDMmmYY, 15),
    (NumberFormatValues::DateDMmm, 16),
    (NumberFormatValues::DateMmmYY, 17),
    (NumberFormatValues::Time12Hour, 18),
    (NumberFormatValues::Time12HourWithSeconds, 19),
    (NumberFormatValues::Time24Hour, 20),
    (NumberFormatValues::Time24HourWithSeconds, 21),
    (NumberFormatValues::DateTimeMMDDYY, 22),
    (NumberFormatValues::AccountingNoDecimals, 37),
    (NumberFormatValues::AccountingNoDecimalsRed, 38),
    (NumberFormatValues::AccountingTwoDecimals, 39),
    (NumberFormatValues::AccountingTwoDecimalsRed, 40),
    (NumberFormatValues::AccountingNegativeInParentheses, 41),
    (NumberFormatValues::AccountingTwoDecimalsNegativeInParentheses, 42),
    (NumberFormatValues::AccountingAlignedSymbols, 43),
    (NumberFormatValues::AccountingAlignedSymbolsTwoDecimals, 44),
    (NumberFormatValues::TimeMinutesSeconds, 45),
    (NumberFormatValues::TimeHoursMinutesSeconds, 46),
    (NumberFormatValues::ElapsedTimeWithFractions, 47),
    (NumberFormatValues::ScientificOneDecimal, 48),
    (NumberFormatValues::TextFormat, 49),
];
/// The same names as the file format uses, written down independently of the library.
pub fn border_name(b: &BorderStyleValues) -> &'static str {
    use BorderStyleValues::*;
    match b {
        None => "none",
        Thin => "thin",
        Thick => "thick",
        Dotted => "dotted",
        Double => "double",
        Dashed => "dashed",
        DashDot => "dashDot",
        DashDotDot => "dashDotDot",
        Medium => "medium",
        MediumDashed => "mediumDashed",
        MediumDashDot => "mediumDashDot",
        MediumDashDotDot => "mediumDashDotDot",
        SlantDashDot => "slantDashDot",
        Hair => "hair",
    }
}
pub const BORDERS: &[BorderStyleValues] = &[
    BorderStyleValues::None,
    BorderStyleValues::Thin,
    BorderStyleValues::Thick,
    BorderStyleValues::Dotted,
    BorderStyleValues::Double,
    BorderStyleValues::Dashed,
    BorderStyleValues::DashDot,
    BorderStyleValues::DashDotDot,
    BorderStyleValues::Medium,
    BorderStyleValues::MediumDashed,
    BorderStyleValues::MediumDashDot,
    BorderStyleValues::MediumDashDotDot,
    BorderStyleValues::SlantDashDot,
    BorderStyleValues::Hair,
];
pub fn rgb(v: &str) -> ColorSetting {
    ColorSetting { color_setting_type: ColorSettingTypeValues::Rgb, value: v.into() }
}
pub fn theme(v: &str) -> ColorSetting {
    ColorSetting { color_setting_type: ColorSettingTypeValues::Theme, value: v.into() }
}
pub fn indexed(v: &str) -> ColorSetting {
    ColorSetting { color_setting_type: ColorSettingTypeValues::Indexed, value: v.into() }
}

/// What is asked for.
pub fn requested(s: &StyleSetting) -> Fmt {
    let b = |x: &BorderSetting| {
        let n = border_name(&x.style).to_string();
        let c = if n == "none" { None } else { x.border_color.as_ref().map(color_of) };
        (n, c)
    };
    let num = if s.number_format == NumberFormatValues::Custom {
        format!("code {}", s.custom_number_format.clone().unwrap_or_default())
    } else {
        format!("id {}", NUMS.iter().find(|(n, _)| *n == s.number_format).expect("harness: number format").1)
    };
    Fmt {
        font: (
            s.font_family.clone(),
            s.font_size.to_string(),
            Some(color_of(&s.text_color)),
            s.is_bold,
            s.is_italic,
            if s.is_double_underline { "double" } else if s.is_underline { "single" } else { "none" }.into(),
        ),
        fill: if s.background_color.is_none() && s.foreground_color.is_none() {
            ("none".into(), None, None)
        } else {
            ("solid".into(), s.foreground_color.clone(), s.background_color.clone())
        },
        borders: [b(&s.border_left), b(&s.border_right), b(&s.border_top), b(&s.border_bottom), b(&s.border_diagonal)],
        num,
        h: match s.horizontal_alignment {
            HorizontalAlignmentValues::None => "general",
            HorizontalAlignmentValues::LEFT => "left",
            HorizontalAlignmentValues::CENTER => "center",
            HorizontalAlignmentValues::RIGHT => "right",
            HorizontalAlignmentValues::JUSTIFY => "justify",
        }
        .into(),
        v: match s.vertical_alignment {
            VerticalAlignmentValues::None => "bottom",
            VerticalAlignmentValues::Top => "top",
            VerticalAlignmentValues::Middle => "center",
            VerticalAlignmentValues::Bottom => "bottom",
        }
        .into(),
        wrap: s.is_wrap_text,
        extra: vec![],
    }
}

fn color(e: &Elem, extra: &mut Vec<String>) -> Option<(String, String)> {
    let mut r = None;
    for (k, v) in &e.attrs {
        match k.local.as_str() {
            "rgb" | "theme" | "indexed" if r.is_none() => r = Some((k.local.clone(), v.clone())),
            "tint" if v.parse() == Ok(0.0) => {}
            k => extra.push(format!("colour {k}={v}")),
        }
    }
    r
}
fn flag(e: &Elem) -> bool {
    !matches!(e.at("val"), Some("0") | Some("false"))
}
fn bool_at(e: &Elem, n: &str) -> Option<bool> {
    e.at(n).map(|v| matches!(v, "1" | "true"))
}
fn nth<'a>(styles: &'a Elem, coll: &str, item: &str, id: &str) -> Result<&'a Elem, String> {
    let i: usize = id.parse().map_err(|_| format!("{item} index {id:?}"))?;
    styles
        .kid(coll)
        .and_then(|c| c.elems().filter(|e| e.local() == item).nth(i))
        .ok_or_else(|| format!("{item} {i} does not exist"))
}
/// What cell format number `i` of a styles part stands for.
pub fn resolve(styles: &Elem, i: u32) -> Result<Fmt, String> {
    let xf = nth(styles, "cellXfs", "xf", &i.to_string())?;
    let mut f = Fmt::default();
    let mut extra = vec![];
    for (k, v) in &xf.attrs {
        match k.local.as_str() {
            "numFmtId" | "fontId" | "fillId" | "borderId" | "xfId" | "applyNumberFormat" | "applyFont" | "applyFill" | "applyBorder" | "applyAlignment" => {}
            "applyProtection" => {}
            "quotePrefix" | "pivotButton" if v == "0" || v == "false" => {}
            k => extra.push(format!("xf {k}={v}")),
        }
    }
    if let Some(x) = xf.at("xfId") {
        nth(styles, "cellStyleXfs", "xf", x)?;
    }
    let id = |n: &str| xf.at(n).unwrap_or("0").to_string();
    // an apply flag that says no takes the record away
    for (a, idn) in [("applyNumberFormat", "numFmtId"), ("applyFont", "fontId"), ("applyFill", "fillId"), ("applyBorder", "borderId")] {
        if bool_at(xf, a) == Some(false) && id(idn) != "0" {
            extra.push(format!("{a} is off for {idn}={}", id(idn)));
        }
    }
    // number format
    let nid = id("numFmtId");
    let recs: Vec<&Elem> = styles.kid("numFmts").map(|n| n.elems().filter(|e| e.at("numFmtId") == Some(nid.as_str())).collect()).unwrap_or_default();
    match recs.as_slice() {
        [] => {
            if nid.parse::<u32>().is_ok_and(|n| n >= 164) || nid.parse::<u32>().is_err() {
                return Err(format!("number format {nid} does not exist"));
            }
            f.num = format!("id {nid}");
        }
        [e] => f.num = format!("code {}", e.at("formatCode").unwrap_or("")),
        v => return Err(format!("number format {nid} is defined {} times", v.len())),
    }
    // font
    let font = nth(styles, "fonts", "font", &id("fontId"))?;
    f.font.5 = "none".into();
    for k in font.elems() {
        match k.local() {
            "b" => f.font.3 = flag(k),
            "i" => f.font.4 = flag(k),
            "u" => f.font.5 = k.at("val").unwrap_or("single").to_string(),
            "sz" => f.font.1 = k.at("val").unwrap_or("").to_string(),
            "name" => f.font.0 = k.at("val").unwrap_or("").to_string(),
            "color" => f.font.2 = color(k, &mut extra),
            "family" | "scheme" | "charset" => {}
            "strike" | "outline" | "shadow" | "condense" | "extend" if !flag(k) => {}
            "vertAlign" if k.at("val") == Some("baseline") => {}
            o => extra.push(format!("font {o}")),
        }
    }
    // fill
    let fill = nth(styles, "fills", "fill", &id("fillId"))?;
    match fill.kid("patternFill") {
        None => extra.push(format!("fill {}", fill.elems().next().map(|e| e.local().to_string()).unwrap_or_default())),
        Some(p) => {
            f.fill.0 = p.at("patternType").unwrap_or("none").to_string();
            for k in p.elems() {
                let c = color(k, &mut extra);
                let v = match c {
                    Some((t, v)) if t == "rgb" => Some(v),
                    Some((t, v)) => Some(format!("{t} {v}")),
                    None => None,
                };
                match k.local() {
                    "fgColor" => f.fill.1 = v,
                    "bgColor" => f.fill.2 = v,
                    o => extra.push(format!("fill {o}")),
                }
            }
        }
    }
    // border
    let border = nth(styles, "borders", "border", &id("borderId"))?;
    for b in f.borders.iter_mut() {
        b.0 = "none".into();
    }
    for k in border.elems() {
        let i = match k.local() {
            "left" | "start" => 0,
            "right" | "end" => 1,
            "top" => 2,
            "bottom" => 3,
            "diagonal" => 4,
            o => {
                if k.at("style").is_some_and(|s| s != "none") {
                    extra.push(format!("border {o}"));
                }
                continue;
            }
        };
        let st = k.at("style").unwrap_or("none").to_string();
        let c = k.kid("color").and_then(|c| color(c, &mut extra));
        f.borders[i] = if st == "none" { (st, None) } else { (st, c) };
    }
    // alignment
    f.h = "general".into();
    f.v = "bottom".into();
    for k in xf.elems() {
        match k.local() {
            "alignment" => {
                for (a, v) in &k.attrs {
                    match a.local.as_str() {
                        "horizontal" => f.h = if v == "none" { extra.push("horizontal=none is no alignment".into()); v.clone() } else { v.clone() },
                        "vertical" => f.v = v.clone(),
                        "wrapText" => f.wrap = matches!(v.as_str(), "1" | "true"),
                        "indent" | "textRotation" | "relativeIndent" | "readingOrder" if v == "0" => {}
                        "shrinkToFit" | "justifyLastLine" if v == "0" || v == "false" => {}
                        a => extra.push(format!("alignment {a}={v}")),
                    }
                }
                if bool_at(xf, "applyAlignment") == Some(false) && (f.h != "general" || f.v != "bottom" || f.wrap) {
                    extra.push("applyAlignment is off".into());
                }
            }
            "protection" => {
                if bool_at(k, "locked") == Some(false) || bool_at(k, "hidden") == Some(true) {
                    extra.push("protection".into());
                }
            }
            "extLst" => {}
            o => extra.push(format!("xf {o}")),
        }
    }
    f.extra = extra;
    Ok(f)
}
/// The number format id of a cell format.
pub fn num_id(styles: &Elem, i: u32) -> String {
    nth(styles, "cellXfs", "xf", &i.to_string()).ok().and_then(|x| x.at("numFmtId")).unwrap_or("0").to_string()
}
pub fn count(styles: &Elem) -> u32 {
    styles.kid("cellXfs").map(|c| c.elems().filter(|e| e.local() == "xf").count()).unwrap_or(0) as u32
}
/// Record collections of the styles part.
pub const COLLS: &[(&str, &str)] = &[
    ("numFmts", "numFmt"),
    ("fonts", "font"),
    ("fills", "fill"),
    ("borders", "border"),
    ("cellStyleXfs", "xf"),
    ("cellXfs", "xf"),
    ("cellStyles", "cellStyle"),
    ("dxfs", "dxf"),
    ("tableStyles", "tableStyle"),
];
/// Existing records keep index and content, counts are right, everything else stays.
pub fn preserved(before: &Elem, after: &Elem, diff: impl Fn(&Elem, &Elem) -> Option<String>) -> Vec<String> {
    let mut out = vec![];
    for (coll, item) in COLLS {
        let a: Vec<&Elem> = before.kid(coll).map(|c| c.elems().filter(|e| e.local() == *item).collect()).unwrap_or_default();
        let b: Vec<&Elem> = after.kid(coll).map(|c| c.elems().filter(|e| e.local() == *item).collect()).unwrap_or_default();
        for (i, x) in a.iter().enumerate() {
            match b.get(i) {
                None => out.push(format!("styles: {item} {i} of {coll} lost")),
                Some(y) => {
                    if let Some(d) = diff(x, y) {
                        out.push(format!("styles: {item} {i} of {coll} changed: {d}"));
                    }
                }
            }
        }
        if !matches!(*coll, "numFmts" | "fonts" | "fills" | "borders" | "cellStyleXfs" | "cellXfs") && b.len() != a.len() && before.kid(coll).is_some() {
            out.push(format!("styles: {coll} had {} records, now {}", a.len(), b.len()));
        }
    }
    for e in before.elems() {
        if !COLLS.iter().any(|(c, _)| *c == e.local()) {
            match after.elems().find(|x| x.name == e.name) {
                None => out.push(format!("styles: {} lost", e.local())),
                Some(x) => {
                    if let Some(d) = diff(e, x) {
                        out.push(format!("styles: {d}"));
                    }
                }
            }
        }
    }
    out.extend(new_ids(Some(before), after));
    out.extend(structure(after));
    out
}
pub fn structure(after: &Elem) -> Vec<String> {
    let mut out = vec![];
    let order = ["numFmts", "fonts", "fills", "borders", "cellStyleXfs", "cellXfs", "cellStyles", "dxfs", "tableStyles", "colors", "extLst"];
    let mut last = 0;
    for e in after.elems() {
        match order.iter().position(|o| *o == e.local()) {
            None => out.push(format!("styles: unknown element {}", e.local())),
            Some(p) => {
                if p < last {
                    out.push(format!("styles: {} out of order", e.local()));
                }
                last = p.max(last);
            }
        }
        if let Some(c) = e.at("count") {
            if e.local() != "tableStyles" && e.elems().count().to_string() != c {
                out.push(format!("styles: {} count {c} but {} records", e.local(), e.elems().count()));
            }
        }
    }
    out
}
/// Added number formats have ids of their own, beyond the built-in ones.
pub fn new_ids(before: Option<&Elem>, after: &Elem) -> Vec<String> {
    let mut out = vec![];
    let ids = |e: &Elem| -> Vec<String> { e.kid("numFmts").map(|c| c.elems().filter_map(|n| n.at("numFmtId").map(|s| s.to_string())).collect()).unwrap_or_default() };
    let (a, b) = (before.map(ids).unwrap_or_default(), ids(after));
    for (i, n) in b.iter().enumerate().skip(a.len()) {
        if n.parse::<u64>().map_or(true, |n| n < 164) {
            out.push(format!("styles: number format added under id {n}, which is a built-in one"));
        }
        if b[..i].contains(n) {
            out.push(format!("styles: number format added under id {n}, which is in use"));
        }
    }
    out
}
