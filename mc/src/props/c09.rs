//! A style id stands for exactly the formatting requested.
use super::common::*;
use crate::books;
use crate::sty;
use std::sync::Arc;

type Atom = (String, Arc<dyn Fn(&mut StyleSetting) + Send + Sync>);
fn at(n: impl Into<String>, f: impl Fn(&mut StyleSetting) + Send + Sync + 'static) -> Atom {
    (n.into(), Arc::new(f))
}
fn make(atoms: &[&Atom]) -> StyleSetting {
    let mut s = StyleSetting::default();
    for a in atoms {
        (a.1)(&mut s);
    }
    s
}
fn bs(c: Option<ColorSetting>, s: &BorderStyleValues) -> BorderSetting {
    BorderSetting { border_color: c, style: s.clone() }
}
const SIDES: &[&str] = &["left", "right", "top", "bottom", "diagonal"];
fn side<'a>(s: &'a mut StyleSetting, i: usize) -> &'a mut BorderSetting {
    match i {
        0 => &mut s.border_left,
        1 => &mut s.border_right,
        2 => &mut s.border_top,
        3 => &mut s.border_bottom,
        _ => &mut s.border_diagonal,
    }
}
/// A custom number format that has code `c`
fn code(c: &str) -> Atom {
    let c = c.to_string();
    at(format!("code {c:?}"), move |s| {
        s.number_format = NumberFormatValues::Custom;
        s.custom_number_format = Some(c.clone());
    })
}
fn colors() -> Vec<(&'static str, fn() -> ColorSetting)> {
    vec![
        ("rgb red", || sty::rgb("FFFF0000")),
        ("rgb green", || sty::rgb("FF00FF00")),
        ("theme 1", || sty::theme("1")),
        ("theme 4", || sty::theme("4")),
        ("indexed 1", || sty::indexed("1")),
        ("indexed 64", || sty::indexed("64")),
    ]
}
/// Every value of every single setting (a few for the open ones).
fn atoms() -> Vec<Atom> {
    let mut v: Vec<Atom> = vec![at("default", |_| {})];
    for (n, id) in sty::NUMS {
        let n = n.clone();
        if *id != 0 {
            v.push(at(format!("number format {id}"), move |s| s.number_format = n.clone()));
        }
    }
    for c in ["0.0", "0.00", "\"a\"0", "General", "@", "[Red]0;<\"&\">", " # ", "yyyy\\-mm", "YYYY\\-MM", "0.0 ", "0", "#,##0"] {
        v.push(code(c));
    }
    v.push(at("code left over, format General", |s| s.custom_number_format = Some("0.000".into())));
    v.push(at("code left over, format percentage", |s| {
        s.number_format = NumberFormatValues::Percentage;
        s.custom_number_format = Some("0.000".into());
    }));
    for i in 0..5 {
        for b in sty::BORDERS {
            let b2 = b.clone();
            v.push(at(format!("{} {}", SIDES[i], sty::border_name(b)), move |s| *side(s, i) = bs(None, &b2)));
        }
        for (n, c) in colors() {
            v.push(at(format!("{} thin {n}", SIDES[i]), move |s| *side(s, i) = bs(Some(c()), &BorderStyleValues::Thin)));
        }
        v.push(at(format!("{} none, red", SIDES[i]), move |s| *side(s, i) = bs(Some(sty::rgb("FFFF0000")), &BorderStyleValues::None)));
    }
    for n in ["Arial", "A & B", "Calibri ", "calibri", "\"q'<>", "ｆ", "Calibri Light"] {
        v.push(at(format!("font {n:?}"), move |s| s.font_family = n.to_string()));
    }
    for n in [1u8, 9, 10, 12, 72, 255] {
        v.push(at(format!("size {n}"), move |s| s.font_size = n));
    }
    for (n, c) in colors() {
        v.push(at(format!("text {n}"), move |s| s.text_color = c()));
    }
    v.push(at("bold", |s| s.is_bold = true));
    v.push(at("italic", |s| s.is_italic = true));
    v.push(at("underline", |s| s.is_underline = true));
    v.push(at("double underline", |s| s.is_double_underline = true));
    v.push(at("both underlines", |s| {
        s.is_double_underline = true;
        s.is_underline = true;
    }));
    v.push(at("wrap", |s| s.is_wrap_text = true));
    for c in ["FFFF0000", "FFFFFF00", "FF00FF00"] {
        v.push(at(format!("background {c}"), move |s| s.background_color = Some(c.into())));
        v.push(at(format!("foreground {c}"), move |s| s.foreground_color = Some(c.into())));
    }
    for h in [HorizontalAlignmentValues::LEFT, HorizontalAlignmentValues::CENTER, HorizontalAlignmentValues::RIGHT, HorizontalAlignmentValues::JUSTIFY] {
        v.push(at(format!("horizontal {h:?}"), move |s| s.horizontal_alignment = h.clone()));
    }
    for h in [VerticalAlignmentValues::Top, VerticalAlignmentValues::Middle, VerticalAlignmentValues::Bottom] {
        v.push(at(format!("vertical {h:?}"), move |s| s.vertical_alignment = h.clone()));
    }
    v
}
/// One of each group, for longer sequences.
fn few() -> Vec<Atom> {
    let pick = [
        "default", "number format 9", "code \"0.0\"", "code \"0.00\"", "left thin", "right thin", "diagonal thin rgb red", "font \"Arial\"", "size 12", "text theme 4", "bold", "italic", "underline",
        "double underline", "wrap", "background FFFFFF00", "foreground FFFFFF00", "horizontal CENTER", "vertical Middle",
    ];
    let all = atoms();
    pick.iter().map(|p| all.iter().find(|a| a.0 == *p).unwrap_or_else(|| panic!("harness: {p}")).clone()).collect()
}

#[derive(Clone, Debug, PartialEq)]
enum Step {
    Ask(Vec<usize>),
    Reopen,
}
/// What the cells hold: cell (row, 1) has the style `ask[row]`.
fn run(src: Option<&[u8]>, table: &[Atom], steps: &[Step], use_all: bool, sc: &Scratch) -> Out {
    let mut out = Out::default();
    let before0 = match src {
        Some(b) => match Book::read(b) {
            Ok(b) => b.styles,
            Err(e) => panic!("harness: source: {e}"),
        },
        None => None,
    };
    let mut file: Option<Vec<u8>> = src.map(|b| b.to_vec());
    let mut before = before0.clone();
    // (row, wanted)
    let mut asked: Vec<(u32, sty::Fmt, String)> = vec![];
    let mut row = 20u32;
    let segs: Vec<Vec<Vec<usize>>> = {
        let mut v = vec![vec![]];
        for s in steps {
            match s {
                Step::Ask(a) => v.last_mut().unwrap().push(a.clone()),
                Step::Reopen => v.push(vec![]),
            }
        }
        v
    };
    let mut known: Vec<(Vec<usize>, String, u32)> = vec![];
    for (si, seg) in segs.iter().enumerate() {
        let path = file.as_ref().map(|b| sc.put("xlsx", b));
        let mut x = match open(path.as_deref()) {
            Res::Ok(x) => x,
            r => {
                out.bad(format!("open: {}", r.show()));
                return out;
            }
        };
        let mut w = match if si == 0 && src.is_none() { x.add(Some("A")) } else { x.get("A") } {
            Res::Ok(w) => w,
            r => {
                out.bad(format!("sheet: {}", r.show()));
                return out;
            }
        };
        for a in seg {
            out.transitions += 1;
            let parts: Vec<&Atom> = a.iter().map(|i| &table[*i]).collect();
            let name = parts.iter().map(|p| p.0.as_str()).collect::<Vec<_>>().join(" + ");
            let s = make(&parts);
            let want = sty::requested(&s);
            let shown = format!("{s:?}");
            let id = match x.style(s) {
                Res::Ok(i) => i,
                r => {
                    out.bad(format!("style id for {name}: {}", r.show()));
                    continue;
                }
            };
            let n = id.get_id();
            for (_, other, on) in &known {
                if *other == shown && *on != n {
                    out.bad(format!("{name} has id {on} and later {n}"));
                }
            }
            known.push((a.clone(), shown, n));
            let mut c = cell("1", CellDataType::Number);
            c.style_id = Some(id.clone());
            let r = ws_call(&mut w, |w| w.set_row_value_index_mut(row, 1, vec![c]));
            if !r.is_ok() {
                out.bad(format!("cell: {}", r.show()));
            }
            if use_all {
                let mut rp = RowProperties::default();
                rp.style_id = Some(id.clone());
                let mut cp = ColumnProperties::default();
                cp.style_id = Some(id.clone());
                let r = ws_call(&mut w, |w| w.set_row_index_properties_mut(&row, rp));
                let r2 = ws_call(&mut w, |w| w.set_column_index_properties_mut(&(row as u16), Some(cp)));
                if !r.is_ok() || !r2.is_ok() {
                    out.bad(format!("row or column: {} {}", r.show(), r2.show()));
                }
            }
            asked.push((row, want, name));
            row += 1;
        }
        ws_drop(w);
        let bytes = match x.save_bytes(sc) {
            Res::Ok(b) => b,
            r => {
                out.bad(format!("save: {}", r.show()));
                return out;
            }
        };
        if let Some(p) = path {
            let _ = std::fs::remove_file(p);
        }
        let b = match Book::read(&bytes) {
            Ok(b) => b,
            Err(e) => {
                out.bad(format!("saved file: {e}"));
                return out;
            }
        };
        out.states.push(h64(format!("{:?}", b.styles).as_bytes()));
        let Some(st) = &b.styles else {
            out.bad("no styles part");
            return out;
        };
        if let Some(a) = &before {
            for p in sty::preserved(a, st, diff) {
                out.bad(p);
            }
        } else {
            for p in sty::structure(st).into_iter().chain(sty::new_ids(None, st)) {
                out.bad(p);
            }
        }
        let sheet = b.sheet("A").expect("harness: sheet");
        let mut check = |id: u32, want: &sty::Fmt, what: String| match sty::resolve(st, id) {
            Err(e) => out.bad(format!("{what}: style {id}: {e}")),
            Ok(mut f) => {
                // a file may spell out what a built-in number format looks like in its locale: it is still that format
                if want.num.starts_with("id ") && sty::num_id(st, id) == want.num[3..] {
                    f.num = want.num.clone();
                }
                if let Some(d) = want.differs(&f) {
                    out.bad(format!("{what}: style {id}: {d}"));
                }
            }
        };
        let cols = if use_all { sheet.cols() } else { Default::default() };
        for (r, want, name) in &asked {
            match sheet.grid.get(&(*r, 1)) {
                None => check(u32::MAX, want, format!("cell of {name} is gone")),
                Some(c) => check(c.s, want, format!("cell with {name}")),
            }
            if use_all {
                match sheet.rows.get(r).and_then(|r| r.style) {
                    None if want.differs(&sty::resolve(st, 0).unwrap_or_default()).is_none() => {}
                    None => check(u32::MAX, want, format!("row with {name} has no style")),
                    Some(s) => check(s, want, format!("row with {name}")),
                }
                check(cols.get(r).map(|c| c.style).unwrap_or(0), want, format!("column with {name}"));
            }
        }
        if st.kid("cellXfs").is_some_and(|c| c.elems().count() > sty_len(&before) + seg.len() + 1) {
            out.bad(format!("{} cell formats for {} requests", sty::count(st), seg.len()));
        }
        before = b.styles.clone();
        file = Some(bytes);
    }
    // equal settings are one record: the same id in every segment, as the file has only grown
    out.nontrivial = asked.len() > 0;
    out.outcome = h64(format!("{:?}", known.iter().map(|k| k.2).collect::<Vec<_>>()).as_bytes());
    out
}
fn sty_len(st: &Option<Elem>) -> usize {
    st.as_ref().map(|s| sty::count(s) as usize).unwrap_or(0)
}
const X: &str = "http://schemas.openxmlformats.org/spreadsheetml/2006/main";
fn with_styles(styles: Option<&str>) -> Vec<u8> {
    let mut w = Wb::new(&["A"]);
    w.sheets[0].2 = fx::sheet("<sheetData/>");
    w.styles = styles.map(|s| s.to_string());
    w.zip()
}
/// A styles part made of these records, cell format 0 is the default one.
fn styles(num: &str, fonts: &str, fills: &str, borders: &str, xfs: &str, rest: &str) -> String {
    format!(
        "{}<styleSheet xmlns=\"{X}\">{num}<fonts><font><sz val=\"11\"/><color theme=\"1\"/><name val=\"Calibri\"/><family val=\"2\"/><scheme val=\"minor\"/></font>{fonts}</fonts><fills><fill><patternFill patternType=\"none\"/></fill><fill><patternFill patternType=\"gray125\"/></fill>{fills}</fills><borders><border><left/><right/><top/><bottom/><diagonal/></border>{borders}</borders><cellStyleXfs><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\"/></cellStyleXfs><cellXfs><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\"/>{xfs}</cellXfs>{rest}</styleSheet>",
        fx::DECL
    )
}
fn font(pre: &str) -> String {
    format!("<font>{pre}<sz val=\"11\"/><color theme=\"1\"/><name val=\"Calibri\"/><family val=\"2\"/><scheme val=\"minor\"/></font>")
}
/// Records that look almost like what is asked for, each with a cell format that uses it.
fn near() -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let xf = |f: usize, l: usize, b: usize, n: usize, a: &str, k: &str| format!("<xf numFmtId=\"{n}\" fontId=\"{f}\" fillId=\"{l}\" borderId=\"{b}\" xfId=\"0\"{a}>{k}</xf>");
    for p in [
        "<b/>", "<b val=\"0\"/>", "<b val=\"false\"/>", "<b/><strike/>", "<b/><i val=\"0\"/>", "<i/><shadow/>", "<u/>", "<u val=\"double\"/>", "<u val=\"none\"/>", "<u val=\"singleAccounting\"/>", "<strike/>", "<outline/>",
        "<vertAlign val=\"superscript\"/>", "<condense/>", "<b/><charset val=\"2\"/>",
    ] {
        v.push((format!("font {p}"), styles("", &font(p), "", "", &xf(1, 0, 0, 0, " applyFont=\"1\"", ""), "")));
    }
    for f in [
        "<font><b/><sz val=\"11\"/><name val=\"Calibri\"/></font>",
        "<font><sz val=\"12\"/><color theme=\"1\" tint=\"0.5\"/><name val=\"Calibri\"/></font>",
        "<font><sz val=\"12.0\"/><color theme=\"1\"/><name val=\"Calibri\"/></font>",
        "<font><name val=\"Calibri\"/><color theme=\"1\"/><sz val=\"11\"/><b/></font>",
        "<font/>",
        "<font><sz val=\"11\"/><color auto=\"1\"/><name val=\"Arial\"/></font>",
    ] {
        v.push((format!("font {f}"), styles("", f, "", "", &xf(1, 0, 0, 0, " applyFont=\"1\"", ""), "")));
    }
    for f in [
        "<fill><patternFill patternType=\"solid\"><fgColor rgb=\"FFFFFF00\"/></patternFill></fill>",
        "<fill><patternFill patternType=\"solid\"><fgColor rgb=\"FFFFFF00\"/><bgColor indexed=\"64\"/></patternFill></fill>",
        "<fill><patternFill patternType=\"solid\"><fgColor rgb=\"FFFFFF00\" tint=\"0.3\"/></patternFill></fill>",
        "<fill><patternFill patternType=\"solid\"><bgColor rgb=\"FFFFFF00\"/></patternFill></fill>",
        "<fill><patternFill patternType=\"darkGrid\"><fgColor rgb=\"FFFFFF00\"/></patternFill></fill>",
        "<fill><patternFill><bgColor rgb=\"FFFFFF00\"/></patternFill></fill>",
        "<fill><gradientFill degree=\"90\"><stop position=\"0\"><color rgb=\"FFFFFF00\"/></stop><stop position=\"1\"><color rgb=\"FFFFFF00\"/></stop></gradientFill></fill>",
        "<fill/>",
    ] {
        v.push((format!("fill {f}"), styles("", "", f, "", &xf(0, 2, 0, 0, " applyFill=\"1\"", ""), "")));
    }
    for b in [
        "<border><left style=\"thin\"/><right/><top/><bottom/><diagonal/></border>",
        "<border><left style=\"thin\"><color auto=\"1\"/></left><right/><top/><bottom/><diagonal/></border>",
        "<border><left style=\"thin\"><color rgb=\"FFFF0000\" tint=\"0.1\"/></left><right/><top/><bottom/><diagonal/></border>",
        "<border diagonalUp=\"1\" diagonalDown=\"1\"><left/><right/><top/><bottom/><diagonal style=\"thin\"><color rgb=\"FFFF0000\"/></diagonal></border>",
        "<border outline=\"0\"><left style=\"thin\"/><right/><top/><bottom/><diagonal/></border>",
        "<border><left style=\"thin\"/><right/><top/><bottom/><diagonal/><vertical style=\"thin\"/><horizontal style=\"hair\"/></border>",
        "<border><start style=\"thin\"/><end/><top/><bottom/></border>",
        "<border/>",
    ] {
        v.push((format!("border {b}"), styles("", "", "", b, &xf(0, 0, 1, 0, " applyBorder=\"1\"", ""), "")));
    }
    for (a, k) in [
        (" applyAlignment=\"1\"", "<alignment horizontal=\"center\"/>"),
        ("", "<alignment horizontal=\"center\"/>"),
        (" applyAlignment=\"0\"", "<alignment horizontal=\"center\"/>"),
        (" applyAlignment=\"1\"", "<alignment horizontal=\"center\" indent=\"1\"/>"),
        (" applyAlignment=\"1\"", "<alignment vertical=\"center\" textRotation=\"90\"/>"),
        (" applyAlignment=\"1\"", "<alignment wrapText=\"1\" shrinkToFit=\"1\"/>"),
        (" applyAlignment=\"1\"", "<alignment wrapText=\"true\"/>"),
        (" applyAlignment=\"1\"", "<alignment horizontal=\"general\" vertical=\"bottom\" wrapText=\"0\"/>"),
        (" applyProtection=\"1\"", "<protection locked=\"0\"/>"),
        (" quotePrefix=\"1\"", ""),
        (" pivotButton=\"1\"", ""),
        ("", "<extLst><ext uri=\"u\"/></extLst>"),
    ] {
        v.push((format!("xf{a} {k}"), styles("", "", "", "", &xf(0, 0, 0, 0, a, k), "")));
    }
    for (n, x) in [
        ("<numFmts count=\"1\"><numFmt numFmtId=\"164\" formatCode=\"0.0\"/></numFmts>", 164),
        ("<numFmts><numFmt numFmtId=\"165\" formatCode=\"0.00\"/><numFmt numFmtId=\"164\" formatCode=\"0.0\"/></numFmts>", 165),
        ("<numFmts><numFmt numFmtId=\"5\" formatCode=\"0.0\"/></numFmts>", 5),
        ("<numFmts><numFmt numFmtId=\"9\" formatCode=\"0%\"/></numFmts>", 9),
        ("<numFmts><numFmt numFmtId=\"300\" formatCode=\"0.0\"/><numFmt numFmtId=\"164\" formatCode=\"x\"/></numFmts>", 300),
        ("<numFmts><numFmt numFmtId=\"170\" formatCode=\"0.0\"/><numFmt numFmtId=\"171\" formatCode=\"0.0\"/></numFmts>", 171),
        ("<numFmts/>", 0),
        ("<numFmts><numFmt numFmtId=\"163\" formatCode=\"z\"/></numFmts>", 163),
    ] {
        v.push((format!("numFmts {n}"), styles(n, "", "", "", &xf(0, 0, 0, x, " applyNumberFormat=\"1\"", ""), "")));
    }
    v.push(("xf without ids".into(), styles("", &font("<b/>"), "", "", "<xf/><xf fontId=\"1\"/><xf fontId=\"1\" applyFont=\"0\"/>", "")));
    v.push(("further collections".into(), styles("", "", "", "", "", "<cellStyles><cellStyle name=\"Normal\" xfId=\"0\" builtinId=\"0\"/></cellStyles><dxfs/><tableStyles/><colors/><extLst><ext uri=\"u\"/></extLst>")));
    v.push(("many equal records".into(), styles("", &font("<b/>").repeat(3), "", "", &xf(3, 0, 0, 0, " applyFont=\"1\"", "").repeat(3), "")));
    v.push(("duplicates of the default".into(), styles("", &font(""), "<fill><patternFill patternType=\"none\"/></fill>", "<border><left/><right/><top/><bottom/><diagonal/></border>", &xf(1, 2, 1, 0, "", ""), "")));
    v.push(("dangling ids".into(), styles("", "", "", "", &xf(7, 0, 0, 0, "", ""), "")));
    // another first record: id 0 is not the default setting
    v.push((
        "first records are not the default".into(),
        format!("{}<styleSheet xmlns=\"{X}\"><fonts><font><b/><sz val=\"20\"/><name val=\"Other\"/></font></fonts><fills><fill><patternFill patternType=\"none\"/></fill><fill><patternFill patternType=\"gray125\"/></fill></fills><borders><border><left style=\"thin\"/></border></borders><cellStyleXfs><xf/></cellStyleXfs><cellXfs><xf applyFont=\"1\" applyBorder=\"1\" numFmtId=\"9\"/></cellXfs></styleSheet>", fx::DECL),
    ));
    v.push((
        "no cell style formats".into(),
        format!("{}<styleSheet xmlns=\"{X}\"><fonts><font><sz val=\"11\"/><color theme=\"1\"/><name val=\"Calibri\"/></font></fonts><fills><fill><patternFill/></fill></fills><borders><border/></borders><cellXfs><xf/></cellXfs></styleSheet>", fx::DECL),
    ));
    v.push(("only an element".into(), format!("{}<styleSheet xmlns=\"{X}\"/>", fx::DECL)));
    v.push(("only dxfs".into(), format!("{}<styleSheet xmlns=\"{X}\"><dxfs count=\"0\"/><extLst/></styleSheet>", fx::DECL)));
    v
}

pub fn check(deep: bool) -> Check {
    let table: Arc<Vec<Atom>> = Arc::new(atoms());
    let n = table.len();
    let sources: Arc<Vec<(&'static str, Option<Vec<u8>>)>> = Arc::new(vec![
        ("new", None),
        ("rich styles", Some(with_styles(Some(books::STYLES_RICH)))),
        ("plain styles", Some(with_styles(Some(fx::STYLES)))),
        ("no styles part", Some(with_styles(None))),
    ]);
    let mut spaces = vec![];
    // singles, through cell, row and column, reopened and asked again
    {
        let (t, s) = (table.clone(), sources.clone());
        let (t2, s2) = (table.clone(), sources.clone());
        spaces.push(Space::new(
            "single-settings",
            &format!("each of {n} settings on each of {} sources, given to a cell, a row and a column; asked for twice, the default between, saved, reopened, asked for again", sources.len()),
            (n * sources.len()) as u64,
            move |i| format!("{}: {}", s2[i as usize / n].0, t2[i as usize % n].0),
            move |i, sc| {
                let a = i as usize % n;
                let st = [Step::Ask(vec![a]), Step::Ask(vec![0]), Step::Ask(vec![a]), Step::Reopen, Step::Ask(vec![a]), Step::Reopen];
                run(s[i as usize / n].1.as_deref(), &t, &st, true, sc)
            },
        ));
    }
    // all ordered pairs as one setting (the later wins where they collide), next to both on their own
    {
        let (t, s) = (table.clone(), sources.clone());
        let (t2, s2) = (table.clone(), sources.clone());
        let ns = if deep { sources.len() } else { 2 };
        spaces.push(Space::new(
            "pairs",
            &format!("every ordered pair out of {n} settings: both in one setting and each alone, in one workbook, on {ns} sources; equal settings must share an id, others resolve to what was asked"),
            (n * n * ns) as u64,
            move |i| {
                let mut d = Dig(i);
                let (a, b, k) = (d.take(n), d.take(n), d.take(ns));
                format!("{}: {} / {}", s2[k].0, t2[a].0, t2[b].0)
            },
            move |i, sc| {
                let mut d = Dig(i);
                let (a, b, k) = (d.take(n), d.take(n), d.take(ns));
                run(s[k].1.as_deref(), &t, &[Step::Ask(vec![a]), Step::Ask(vec![b]), Step::Ask(vec![a, b]), Step::Ask(vec![a])], false, sc)
            },
        ));
    }
    // sequences with reopening
    {
        let f = Arc::new(few());
        let k = f.len() as u64 + 1;
        let depth = if deep { 4 } else { 3 };
        let per = seq_total(k, depth);
        let (f2, s, s2) = (f.clone(), sources.clone(), sources.clone());
        spaces.push(Space::new(
            "sequences",
            &format!("every sequence of up to {depth} requests and reopenings over {} settings, on {} sources", f.len(), sources.len()),
            per * sources.len() as u64,
            move |i| {
                let v = seq_at(k, i % per);
                format!("{}: {:?}", s2[(i / per) as usize].0, v.iter().map(|j| f2.get(*j as usize).map(|a| a.0.clone()).unwrap_or("Reopen".into())).collect::<Vec<_>>())
            },
            move |i, sc| {
                let steps: Vec<Step> = seq_at(k, i % per).iter().map(|j| if *j as usize == f.len() { Step::Reopen } else { Step::Ask(vec![*j as usize]) }).collect();
                run(s[(i / per) as usize].1.as_deref(), &f, &steps, false, sc)
            },
        ));
    }
    // near misses in the source
    {
        let src: Arc<Vec<(String, Vec<u8>)>> = Arc::new(near().into_iter().map(|(n, s)| (n, with_styles(Some(&s)))).collect());
        let m = src.len();
        let (t, t2, src2) = (table.clone(), table.clone(), src.clone());
        spaces.push(Space::new(
            "near-misses",
            &format!("{m} sources, each with records close to a setting (tints, extra flags, apply switches, number formats under other ids, missing collections, equal records), with each of {n} settings, reopened and asked again"),
            (m * n) as u64,
            move |i| format!("{} <- {}", src2[i as usize / n].0, t2[i as usize % n].0),
            move |i, sc| {
                let a = i as usize % n;
                run(Some(&src[i as usize / n].1), &t, &[Step::Ask(vec![a]), Step::Ask(vec![0]), Step::Reopen, Step::Ask(vec![a])], false, sc)
            },
        ));
    }
    // all combinations of the switches
    {
        let f: Arc<Vec<Atom>> = Arc::new(few());
        let names = ["bold", "italic", "underline", "double underline", "wrap", "left thin", "diagonal thin rgb red", "background FFFFFF00", "foreground FFFFFF00", "horizontal CENTER", "vertical Middle", "code \"0.0\"", "font \"Arial\"", "text theme 4"];
        let idx: Vec<usize> = names.iter().map(|n| f.iter().position(|a| a.0 == *n).expect("harness")).collect();
        let bits = if deep { names.len() } else { 12 };
        let (f2, idx2, s, s2) = (f.clone(), idx.clone(), sources.clone(), sources.clone());
        let per = 1u64 << bits;
        spaces.push(Space::new(
            "combinations",
            &format!("all 2^{bits} combinations of {bits} settings in one, along with its neighbours that differ in one of them, on 2 sources"),
            per * 2,
            move |i| format!("{}: {:?}", s2[(i / per) as usize].0, (0..bits).filter(|b| i >> b & 1 == 1).map(|b| f2[idx2[b]].0.clone()).collect::<Vec<_>>()),
            move |i, sc| {
                let m = i % per;
                let set = |m: u64| (0..bits).filter(|b| m >> b & 1 == 1).map(|b| idx[b]).collect::<Vec<_>>();
                let mut steps = vec![Step::Ask(set(m))];
                for b in 0..bits {
                    steps.push(Step::Ask(set(m ^ (1 << b))));
                }
                steps.push(Step::Ask(set(m)));
                run(s[(i / per) as usize].1.as_deref(), &f, &steps, false, sc)
            },
        ));
    }
    // many settings at once, asked again in every distance
    {
        let (t, s, t2, s2) = (table.clone(), sources.clone(), table.clone(), sources.clone());
        let m = n as u64;
        spaces.push(Space::new(
            "many",
            &format!("k different settings for every k up to {n}, then all of them again in the same and in reverse order, on 2 sources, then once more after reopening"),
            m * 2,
            move |i| format!("{}: {} settings, the last {}", s2[(i / m) as usize].0, i % m + 1, t2[(i % m) as usize].0),
            move |i, sc| {
                let k = (i % m) as usize + 1;
                let mut steps: Vec<Step> = (0..k).map(|j| Step::Ask(vec![j])).collect();
                steps.extend((0..k).map(|j| Step::Ask(vec![j])));
                steps.extend((0..k).rev().map(|j| Step::Ask(vec![j])));
                steps.push(Step::Reopen);
                steps.extend((0..k).map(|j| Step::Ask(vec![j])));
                run(s[(i / m) as usize].1.as_deref(), &t, &steps, false, sc)
            },
        ));
    }
    // sequences of different settings that fill and overflow whatever the library remembers, with one asked again after a gap
    {
        let (t, s, s2) = (table.clone(), sources.clone(), sources.clone());
        let gaps = if deep { 60 } else { 40 };
        let firsts = 24usize;
        spaces.push(Space::new(
            "gaps",
            &format!("each of {firsts} settings asked for again after g others, every g up to {gaps}, twice over, on 2 sources"),
            (gaps * firsts * 2) as u64,
            move |i| {
                let mut d = Dig(i);
                let (f, g, k) = (d.take(firsts), d.take(gaps), d.take(2));
                format!("{}: setting {} again after {g} others", s2[k].0, f * 7)
            },
            move |i, sc| {
                let mut d = Dig(i);
                let (f, g, k) = (d.take(firsts), d.take(gaps), d.take(2));
                let f = f * 7 % n;
                let others = |o: usize| (0..g).map(move |j| Step::Ask(vec![(f + 1 + (j + o) % (n - 1)) % n])).collect::<Vec<_>>();
                let mut steps = vec![Step::Ask(vec![f])];
                steps.extend(others(0));
                steps.push(Step::Ask(vec![f]));
                steps.extend(others(g));
                steps.push(Step::Ask(vec![f]));
                run(s[k].1.as_deref(), &t, &steps, false, sc)
            },
        ));
    }
    // texts
    {
        let alpha: Arc<Vec<char>> = Arc::new("a0 \"&<>'\\\n\t;é\u{1F600}\u{1}\u{FFFE}".chars().collect());
        let len = if deep { 4 } else { 3 };
        let k = alpha.len() as u64;
        let per = seq_total(k, len);
        let a2 = alpha.clone();
        let s = sources.clone();
        spaces.push(Space::new(
            "texts",
            &format!("every text of up to {len} characters out of {k} as a font name, a number format code and a fill colour; what XML cannot hold is refused"),
            per * 2,
            move |i| format!("{} {:?}", ["new", "rich"][(i / per) as usize], seq_at(k, i % per).iter().map(|j| a2[*j as usize]).collect::<String>()),
            move |i, sc| {
                let text: String = seq_at(k, i % per).iter().map(|j| alpha[*j as usize]).collect();
                texts(s[(i / per) as usize].1.as_deref(), &text, sc)
            },
        ));
    }
    Check {
        id: "C09",
        level: "model_checking",
        rule: "a case is a sequence of style requests and reopenings on a workbook; every id handed out is given to a cell (and row and column), and after every save each is resolved by an independent reader of the styles part and compared with what was requested, and all records that were there before are compared one by one; distinct by sequence and source",
        assumptions: vec!["colour and format code strings are taken as given, their meaning is not checked", "a border without line has no colour; double underline wins over single", "foreground_color is the pattern colour, background_color the one behind it, the pattern is solid when either is set"],
        spaces,
    }
}
/// A text as font name, number format code and colour: refused or stored as it is.
fn texts(src: Option<&[u8]>, text: &str, sc: &Scratch) -> Out {
    let ok = super::c04::representable(text);
    let mut out = Out::default();
    let t1 = text.to_string();
    let (t2, t3) = (t1.clone(), t1.clone());
    let table: Vec<Atom> = vec![at("font", move |s| s.font_family = t1.clone()), code(&t2), at("fill", move |s| s.background_color = Some(t3.clone())), at("bold", |s| s.is_bold = true)];
    if ok {
        // an empty code is no code
        let mut steps = vec![Step::Ask(vec![0]), Step::Ask(vec![2]), Step::Ask(vec![3]), Step::Ask(vec![0, 2])];
        if !text.is_empty() {
            steps.push(Step::Ask(vec![1]));
        }
        steps.push(Step::Reopen);
        return run(src, &table, &steps, false, sc);
    }
    for k in 0..3 {
        let path = src.map(|b| sc.put("xlsx", b));
        let mut x = match open(path.as_deref()) {
            Res::Ok(x) => x,
            r => {
                out.bad(format!("open: {}", r.show()));
                return out;
            }
        };
        let r = x.style(make(&[&table[k]]));
        out.transitions += 1;
        match r {
            Res::Panic(p) => {
                out.bad(p);
                continue;
            }
            Res::Err(_) => {}
            Res::Ok(_) => {}
        }
        let refused = r.is_err();
        match x.save_bytes(sc) {
            Res::Ok(b) => match Book::read(&b) {
                Ok(b) => {
                    if b.styles.is_none() {
                        out.bad("no styles part");
                    }
                }
                Err(e) => out.bad(format!("saved file is not readable: {e}")),
            },
            Res::Panic(p) => out.bad(p),
            Res::Err(e) if refused => out.bad(format!("save after a refused style: {e}")),
            Res::Err(_) => {}
        }
        out.states.push(k as u64);
        if let Some(p) = path {
            let _ = std::fs::remove_file(p);
        }
    }
    out.nontrivial = true;
    out.outcome = 1;
    out
}
