use super::common::*;
use crate::books::{self, R_NS};
use crate::sim::*;

const ASPECTS: u32 = A_REST | A_WB | A_GRID | A_ROWS | A_COLS | A_ORDER | A_STYLES | A_STR | A_VIEWS | A_OPC | A_RES;

/// child elements of a worksheet in schema order; `None` marks the place of the cells
const WS: &[Option<&str>] = &[
    Some("<sheetPr codeName=\"x\" syncRef=\"B2\"><tabColor theme=\"3\" tint=\"-0.1\"/></sheetPr>"),
    Some("<dimension ref=\"A1:B1\"/>"),
    Some("<sheetViews><sheetView showZeros=\"0\" workbookViewId=\"0\"><selection activeCell=\"C3\" sqref=\"C3\"/></sheetView></sheetViews>"),
    Some("<sheetFormatPr defaultRowHeight=\"12.75\" dyDescent=\"1\"/>"),
    Some("<cols><col min=\"2\" max=\"3\" width=\"5.5\" customWidth=\"1\" outlineLevel=\"1\"/></cols>"),
    None,
    Some("<sheetCalcPr fullCalcOnLoad=\"1\"/>"),
    Some("<sheetProtection password=\"CC1A\" sheet=\"1\"/>"),
    Some("<protectedRanges><protectedRange sqref=\"A1 B2\" name=\"p\"><securityDescriptor>O:WDG</securityDescriptor></protectedRange></protectedRanges>"),
    Some("<scenarios current=\"0\"><scenario name=\"s\" count=\"1\"><inputCells r=\"A1\" val=\"1\"/></scenario></scenarios>"),
    Some("<autoFilter ref=\"A1:B1\"/>"),
    Some("<sortState ref=\"A1:B1\"><sortCondition descending=\"1\" ref=\"A1\"/></sortState>"),
    Some("<dataConsolidate function=\"max\"/>"),
    Some("<customSheetViews><customSheetView guid=\"{00000000-0000-0000-0000-000000000001}\" scale=\"50\"><pageMargins left=\"1\" right=\"1\" top=\"1\" bottom=\"1\" header=\"1\" footer=\"1\"/></customSheetView></customSheetViews>"),
    Some("<mergeCells count=\"1\"><mergeCell ref=\"C3:D4\"/></mergeCells>"),
    Some("<phoneticPr fontId=\"0\" type=\"noConversion\"/>"),
    Some("<conditionalFormatting sqref=\"A1\"><cfRule type=\"expression\" priority=\"1\"><formula>A1&lt;&gt;\"\"</formula></cfRule></conditionalFormatting><conditionalFormatting sqref=\"B1\"><cfRule type=\"dataBar\" priority=\"2\"><dataBar><cfvo type=\"min\"/><cfvo type=\"max\"/><color indexed=\"3\"/></dataBar></cfRule></conditionalFormatting>"),
    Some("<dataValidations count=\"1\" disablePrompts=\"1\"><dataValidation type=\"whole\" sqref=\"A1\" prompt=\"a&#10;b\"><formula1>1</formula1><formula2>2</formula2></dataValidation></dataValidations>"),
    Some("<hyperlinks><hyperlink ref=\"A1\" location=\"x\"/><hyperlink ref=\"B1\" r:id=\"rId1\"/></hyperlinks>"),
    Some("<printOptions headings=\"1\"/>"),
    Some("<pageMargins left=\"0.1\" right=\"0.2\" top=\"0.3\" bottom=\"0.4\" header=\"0.5\" footer=\"0.6\"/>"),
    Some("<pageSetup scale=\"80\" r:id=\"rId2\"/>"),
    Some("<headerFooter differentFirst=\"1\"><oddFooter>&amp;P of &amp;N </oddFooter><firstHeader> x</firstHeader></headerFooter>"),
    Some("<rowBreaks count=\"1\"><brk id=\"1\"/></rowBreaks>"),
    Some("<colBreaks count=\"1\"><brk id=\"2\"/></colBreaks>"),
    Some("<customProperties><customPr name=\"c\" r:id=\"rId2\"/></customProperties>"),
    Some("<cellWatches><cellWatch r=\"A1\"/></cellWatches>"),
    Some("<ignoredErrors><ignoredError sqref=\"A1\" evalError=\"1\"/></ignoredErrors>"),
    Some("<smartTags><cellSmartTags r=\"A1\"><cellSmartTag type=\"0\"/></cellSmartTags></smartTags>"),
    Some("<drawing r:id=\"rId3\"/>"),
    Some("<legacyDrawing r:id=\"rId4\"/>"),
    Some("<legacyDrawingHF r:id=\"rId4\"/>"),
    Some("<picture r:id=\"rId5\"/>"),
    Some("<oleObjects><mc:AlternateContent xmlns:mc=\"http://schemas.openxmlformats.org/markup-compatibility/2006\"><mc:Choice xmlns:x14=\"urn:x14\" Requires=\"x14\"><oleObject progId=\"P\" shapeId=\"1\" r:id=\"rId2\"/></mc:Choice><mc:Fallback/></mc:AlternateContent></oleObjects>"),
    Some("<mc:AlternateContent xmlns:mc=\"http://schemas.openxmlformats.org/markup-compatibility/2006\"><mc:Choice xmlns:x14=\"urn:x14\" Requires=\"x14\"><controls><control shapeId=\"1\" r:id=\"rId2\"/></controls></mc:Choice></mc:AlternateContent>"),
    Some("<webPublishItems count=\"1\"><webPublishItem id=\"1\" divId=\"d\" sourceType=\"sheet\" destinationFile=\"f\"/></webPublishItems>"),
    Some("<tableParts count=\"1\"><tablePart r:id=\"rId6\"/></tableParts>"),
    Some("<extLst><ext xmlns:x14=\"urn:x14\" uri=\"{1}\"><x14:y x14:z=\"1\"> k </x14:y></ext></extLst>"),
];
/// child elements of a workbook in schema order; `None` marks views and sheets
const WBE: &[Option<&str>] = &[
    Some("<fileVersion appName=\"xl\"/>"),
    Some("<fileSharing userName=\"u\"/>"),
    Some("<workbookPr filterPrivacy=\"1\"/>"),
    Some("<mc:AlternateContent xmlns:mc=\"http://schemas.openxmlformats.org/markup-compatibility/2006\"><mc:Choice xmlns:x15=\"urn:x15\" Requires=\"x15\"><q/></mc:Choice></mc:AlternateContent>"),
    Some("<xr:revisionPtr xmlns:xr=\"urn:xr\" revIDLastSave=\"0\" xr:uid=\"{0}\"/>"),
    Some("<workbookProtection lockWindows=\"1\"/>"),
    Some("VIEWS"),
    None,
    Some("<functionGroups builtInGroupCount=\"19\"/>"),
    Some("<externalReferences><externalReference r:id=\"rIdX\"/></externalReferences>"),
    Some("<definedNames><definedName name=\"n\">B!$A$1</definedName><definedName name=\"n\" localSheetId=\"1\">2</definedName><definedName name=\"m\" localSheetId=\"0\">1</definedName></definedNames>"),
    Some("<calcPr calcId=\"1\" fullPrecision=\"0\"/>"),
    Some("<oleSize ref=\"A1:B2\"/>"),
    Some("<customWorkbookViews><customWorkbookView name=\"v\" guid=\"{00000000-0000-0000-0000-000000000001}\" windowWidth=\"1\" windowHeight=\"1\" activeSheetId=\"2\"/></customWorkbookViews>"),
    Some("<pivotCaches><pivotCache cacheId=\"1\" r:id=\"rIdX\"/></pivotCaches>"),
    Some("<smartTagPr embed=\"1\"/>"),
    Some("<smartTagTypes><smartTagType name=\"s\"/></smartTagTypes>"),
    Some("<webPublishing css=\"0\"/>"),
    Some("<fileRecoveryPr autoRecover=\"0\"/><fileRecoveryPr repairLoad=\"1\"/>"),
    Some("<webPublishObjects count=\"1\"><webPublishObject id=\"1\" divId=\"d\" destinationFile=\"f\"/></webPublishObjects>"),
    Some("<extLst><ext uri=\"{2}\"><p xmlns=\"urn:p\" xmlns:q=\"urn:q\" q:a=\"1\"/></ext></extLst>"),
];
const CELLS: &[&str] = &[
    "<c r=\"@\"/>",
    "<c r=\"@\" s=\"1\"/>",
    "<c r=\"@\"><v>1</v></c>",
    "<c r=\"@\" t=\"n\" s=\"2\"><v>-1.5E-7</v></c>",
    "<c r=\"@\" t=\"s\"><v>0</v></c>",
    "<c r=\"@\" t=\"s\" s=\"3\"><v>2</v></c>",
    "<c r=\"@\" t=\"s\" ph=\"1\"><v>5</v></c>",
    "<c r=\"@\" t=\"b\"><v>1</v></c>",
    "<c r=\"@\" t=\"e\"><v>#REF!</v></c>",
    "<c r=\"@\" t=\"str\"><v>t</v></c>",
    "<c r=\"@\" t=\"str\"><f>\"a\"</f><v xml:space=\"preserve\"> a </v></c>",
    "<c r=\"@\" t=\"d\"><v>2020-01-02</v></c>",
    "<c r=\"@\" t=\"inlineStr\"><is><t>i</t></is></c>",
    "<c r=\"@\" t=\"inlineStr\"><is><r><rPr><b/></rPr><t xml:space=\"preserve\">i </t></r><rPh sb=\"0\" eb=\"1\"><t>x</t></rPh></is></c>",
    "<c r=\"@\"><f>1+1</f><v>2</v></c>",
    "<c r=\"@\"><f>1+1</f></c>",
    "<c r=\"@\"><f t=\"array\" ref=\"@\">SUM(1,2)</f><v>3</v></c>",
    "<c r=\"@\"><f t=\"array\" ref=\"@:@\" aca=\"1\" ca=\"1\">1</f><v>3</v></c>",
    "<c r=\"@\"><f t=\"shared\" ref=\"@\" si=\"3\" ca=\"1\">1</f><v>3</v></c>",
    "<c r=\"@\"><f t=\"dataTable\" ref=\"@\" dt2D=\"0\" dtr=\"1\" r1=\"F1\" del1=\"1\"/><v>3</v></c>",
    "<c r=\"@\" cm=\"1\"><f t=\"array\" ref=\"@\">_xlfn.X()</f><v>3</v></c>",
    "<c r=\"@\" vm=\"1\" t=\"e\"><v>#VALUE!</v></c>",
    "<c r=\"@\"><v>1</v><extLst><ext uri=\"{c}\"/></extLst></c>",
    "<c r=\"@\" t=\"b\"><f bx=\"1\">TRUE</f><v>1</v></c>",
];
const ROW_ATTRS: &[&str] = &[
    " spans=\"1:3\"", " s=\"1\" customFormat=\"1\"", " ht=\"20.25\" customHeight=\"1\"", " hidden=\"1\"", " outlineLevel=\"3\"", " collapsed=\"1\"",
    " thickTop=\"1\"", " thickBot=\"1\"", " ph=\"1\"", " xmlns:d=\"urn:d\" d:descent=\"0.25\"",
];
const ROW_CONTENT: &[&str] = &["", "<c r=\"A2\" s=\"1\"><v>2</v></c>", "<c r=\"A2\" s=\"1\"><v>2</v></c><extLst><ext uri=\"{r}\"><y xmlns=\"urn:y\"/></ext></extLst>"];
const COL_ATTRS: &[&str] = &[" width=\"7.25\" customWidth=\"1\"", " style=\"1\"", " hidden=\"1\"", " bestFit=\"1\"", " phonetic=\"1\"", " outlineLevel=\"2\"", " collapsed=\"1\""];
const VIEW_ATTRS: &[&str] = &[
    " windowProtection=\"1\"", " showFormulas=\"1\"", " showGridLines=\"0\"", " showRowColHeaders=\"0\"", " showZeros=\"0\"", " rightToLeft=\"1\"", " tabSelected=\"1\"",
    " showRuler=\"0\"", " showOutlineSymbols=\"0\"", " defaultGridColor=\"0\"", " showWhiteSpace=\"0\"", " view=\"pageLayout\"", " topLeftCell=\"B2\"", " colorId=\"12\"",
    " zoomScale=\"75\"", " zoomScaleNormal=\"80\"", " zoomScaleSheetLayoutView=\"90\"", " zoomScalePageLayoutView=\"60\"",
];

fn base() -> Wb {
    let mut w = Wb::new(&["A", "B"]);
    w.sst = Some(books::sst_rich());
    w.styles = Some(books::STYLES_RICH.into());
    let o = R_NS;
    let p = &mut w.extra;
    p.def("bin", "application/octet-stream");
    p.def("png", "image/png");
    p.def("vml", "application/vnd.openxmlformats-officedocument.vmlDrawing");
    p.part("xl/b.bin", None, vec![1u8]);
    p.part("xl/d.xml", Some("application/vnd.openxmlformats-officedocument.drawing+xml"), "<d/>");
    p.part("xl/v.vml", None, "<v/>");
    p.part("xl/i.png", None, "png");
    p.part("xl/t.xml", Some("application/vnd.openxmlformats-officedocument.spreadsheetml.table+xml"), "<t/>");
    p.part("xl/x.xml", Some("application/vnd.openxmlformats-officedocument.spreadsheetml.externalLink+xml"), "<x/>");
    let s = "xl/worksheets/sheet1.xml";
    p.rel(s, "rId1", &format!("{o}/hyperlink"), "http://x.y/", true);
    p.rel(s, "rId2", &format!("{o}/printerSettings"), "../b.bin", false);
    p.rel(s, "rId3", &format!("{o}/drawing"), "../d.xml", false);
    p.rel(s, "rId4", &format!("{o}/vmlDrawing"), "../v.vml", false);
    p.rel(s, "rId5", &format!("{o}/image"), "../i.png", false);
    p.rel(s, "rId6", &format!("{o}/table"), "../t.xml", false);
    p.rel("xl/workbook.xml", "rIdX", &format!("{o}/externalLink"), "x.xml", false);
    w
}
const DATA: &str = "<sheetData><row r=\"1\"><c r=\"A1\" t=\"s\"><v>0</v></c><c r=\"B1\" s=\"2\"><v>4</v></c></row></sheetData>";

fn sheet_edits() -> Vec<(&'static str, Vec<Op>)> {
    let a = |x: Act| Op::On("A", x);
    vec![
        ("open and close", vec![a(Act::Nop)]),
        ("write a cell", vec![a(Act::Put(2, 3, vec![num("7"), txt("n")], false))]),
        ("set a row", vec![a(Act::Row(1, RS { ht: Some(33.0), ..Default::default() }))]),
        ("set a column", vec![a(Act::Col(5, Some(ColS { width: Some(4.0), ..Default::default() }), false))]),
        ("clear a column", vec![a(Act::Col(2, None, false))]),
        ("set a column outside", vec![a(Act::Col(3, Some(ColS { hidden: Some(true), ..Default::default() }), true))]),
        ("all, reopened in between", vec![
            a(Act::Put(1, 2, vec![txt("q").st(1)], true)),
            Op::Reopen,
            a(Act::Row(3, RS { style: Some(0), hidden: Some(true), ..Default::default() })),
            Op::Rename("A", "AA"),
            Op::Reopen,
            Op::On("AA", Act::Col(1, Some(ColS { style: Some(1), ..Default::default() }), false)),
            Op::On("AA", Act::Nop),
        ]),
    ]
}
fn compose(list: &[Option<&str>], chosen: &[usize]) -> (String, String) {
    let (mut pre, mut post) = (String::new(), String::new());
    let mut past = false;
    for (i, e) in list.iter().enumerate() {
        match e {
            None => past = true,
            Some(x) if chosen.contains(&i) => {
                if past { post.push_str(x) } else { pre.push_str(x) }
            }
            _ => {}
        }
    }
    (pre, post)
}
/// all subsets of the optional positions of up to `k` elements, and of all but up to `k`
fn subsets(list: &[Option<&str>], k: usize) -> Vec<Vec<usize>> {
    let opt: Vec<usize> = (0..list.len()).filter(|i| list[*i].is_some()).collect();
    let mut small: Vec<Vec<usize>> = vec![vec![]];
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        let mut next = vec![];
        for c in &cur {
            for &o in opt.iter().filter(|o| c.last().is_none_or(|l| l < *o)) {
                let mut d = c.clone();
                d.push(o);
                next.push(d);
            }
        }
        small.extend(next.iter().cloned());
        cur = next;
    }
    let mut out = small.clone();
    if opt.len() > 2 * k {
        out.extend(small.iter().map(|s| opt.iter().copied().filter(|o| !s.contains(o)).collect::<Vec<_>>()));
    }
    out
}

pub fn check(deep: bool) -> Check {
    use CellDataType as T;
    let a = |x: Act| Op::On("A", x);
    let mut spaces = vec![];
    // every sequence of edits in a workbook with everything
    let ops = vec![
        a(Act::Nop),
        a(Act::Put(1, 3, vec![num("7")], false)),
        a(Act::Put(2, 1, vec![txt("over")], false)),
        a(Act::Put(2, 4, vec![fml("A1").st(0), cs("x", T::InlineString)], true)),
        a(Act::Put(8, 1, vec![txt("alpha"), none().st(1)], true)),
        a(Act::BadCells(3, 1, vec![num("1"), num("bad")])),
        a(Act::BadRef("A0")),
        a(Act::Row(4, RS { ht: Some(9.0), ..Default::default() })),
        a(Act::Row(7, RS::default())),
        a(Act::Row(6, RS { hidden: Some(true), style: Some(2), ..Default::default() })),
        a(Act::Col(3, Some(ColS { width: Some(8.0), style: Some(1), ..Default::default() }), false)),
        a(Act::Col(16384, None, false)),
        Op::On("B b & <c>", Act::Put(1, 2, vec![num("3")], false)),
        Op::On("C", Act::Put(1, 1, vec![txt("課")], true)),
        Op::Style(1),
        Op::Hide("A"),
        Op::Active("C"),
        Op::V(false),
        Op::Vis(false),
        Op::Rename("A", "A2"),
        Op::AddDrop(Some("N")),
        Op::DelName("C"),
        Op::DelName("A"),
        Op::Reopen,
    ];
    spaces.push(seq_space("edits", "every sequence of edits in a workbook with content of all kinds", vec![("rich", Some(books::rich().zip()))], ops, if deep { 3 } else { 2 }, ASPECTS));
    let held = vec![
        Op::Get(0, "A"),
        Op::Drop(0),
        Op::Do(0, Act::Put(3, 2, vec![num("1")], false)),
        Op::Do(0, Act::Put(10, 1, vec![txt("be ta")], false)),
        Op::Do(0, Act::Row(9, RS { ht: Some(9.0), ..Default::default() })),
        Op::Do(0, Act::Col(4, Some(ColS { best: Some(true), ..Default::default() }), false)),
        Op::Do(0, Act::Col(6, None, false)),
        Op::Style(0),
        Op::Active("C"),
        Op::Reopen,
    ];
    spaces.push(seq_space("one-handle", "every sequence of edits through a held handle in that workbook", vec![("rich", Some(books::rich().zip()))], held, if deep { 5 } else { 4 }, ASPECTS));
    let k = if deep { 3 } else { 2 };
    let tag = |e: &str| e.trim_start_matches('<').split([' ', '>', '/']).next().unwrap_or("").to_string();
    let show = move |list: &[Option<&'static str>], s: &[usize]| -> String {
        let opt = list.iter().filter(|e| e.is_some()).count();
        if s.len() * 2 <= opt {
            format!("only {:?}", s.iter().map(|i| tag(list[*i].unwrap())).collect::<Vec<_>>())
        } else {
            format!("all but {:?}", (0..list.len()).filter(|i| list[*i].is_some() && !s.contains(i)).map(|i| tag(list[i].unwrap())).collect::<Vec<_>>())
        }
    };
    // subsets of the elements of a worksheet
    {
        let subs = std::sync::Arc::new(subsets(WS, k));
        let edits = std::sync::Arc::new(sheet_edits());
        let (s2, e2) = (subs.clone(), edits.clone());
        let n = edits.len();
        spaces.push(Space::new(
            "sheet-elements",
            &format!("worksheets with every set of up to {k} of the {} further child elements, and all but up to {k}, under each of {n} edits", WS.len() - 1),
            (subs.len() * n) as u64,
            move |i| {
                let mut d = Dig(i);
                let e = d.take(n);
                format!("{}; {}", show(WS, &s2[d.0 as usize]), e2[e].0)
            },
            move |i, sc| {
                let mut d = Dig(i);
                let e = d.take(n);
                let (pre, post) = compose(WS, &subs[d.0 as usize]);
                let mut w = base();
                w.sheets[0].2 = fx::sheet(&format!("{pre}{DATA}{post}"));
                Sim::run(Some(&w.zip()), ASPECTS, sc, &edits[e].1)
            },
        ));
    }
    // subsets of the elements of a workbook
    {
        let subs = std::sync::Arc::new(subsets(WBE, k));
        let edits = std::sync::Arc::new(vec![
            ("nothing", vec![]),
            ("activate a sheet", vec![Op::Active("B")]),
            ("set a view attribute", vec![Op::Tabs(false)]),
            ("add a sheet", vec![Op::AddDrop(Some("N")), Op::Reopen]),
            ("delete the first sheet", vec![Op::DelName("A"), Op::Reopen, Op::V(false)]),
            ("delete the second sheet", vec![Op::DelName("B")]),
            ("rename and hide", vec![Op::Rename("A", "Z"), Op::Hide("B"), Op::Reopen, Op::AddDrop(None)]),
            ("write text and style", vec![Op::On("B", Act::Put(1, 1, vec![txt("new").st(0)], false)), Op::Reopen]),
        ]);
        let (s2, e2) = (subs.clone(), edits.clone());
        let n = edits.len();
        spaces.push(Space::new(
            "workbook-elements",
            &format!("workbooks with every set of up to {k} of the {} further child elements, and all but up to {k}, under each of {n} edits", WBE.len() - 1),
            (subs.len() * n) as u64,
            move |i| {
                let mut d = Dig(i);
                let e = d.take(n);
                format!("{}; {}", show(WBE, &s2[d.0 as usize]), e2[e].0)
            },
            move |i, sc| {
                let mut d = Dig(i);
                let e = d.take(n);
                let (pre, post) = compose(WBE, &subs[d.0 as usize]);
                let mut w = base();
                w.views = String::new();
                w.pre = pre.replace("VIEWS", "<bookViews><workbookView windowWidth=\"9\" activeTab=\"1\" showSheetTabs=\"0\"/></bookViews>");
                w.post = post;
                Sim::run(Some(&w.zip()), ASPECTS, sc, &edits[e].1)
            },
        ));
    }
    // every pair of cell forms next to each other, edits around and on them
    {
        let k = CELLS.len();
        let edits = std::sync::Arc::new(vec![
            vec![a(Act::Put(1, 4, vec![num("7")], false))],
            vec![a(Act::Put(1, 1, vec![num("7")], false))],
            vec![a(Act::Put(1, 2, vec![txt("seven")], true))],
            vec![a(Act::Put(2, 2, vec![txt("seven")], true)), Op::Reopen, a(Act::Put(1, 3, vec![txt("alpha")], true))],
            vec![a(Act::Row(1, RS { ht: Some(5.0), style: Some(0), ..Default::default() })), Op::Reopen, a(Act::Nop)],
            vec![a(Act::BadCells(1, 1, vec![num("7"), num("q")])), a(Act::Col(1, Some(ColS { hidden: Some(true), ..Default::default() }), false))],
        ]);
        let n = edits.len();
        let e2 = edits.clone();
        spaces.push(Space::new(
            "cell-forms",
            &format!("every pair of {k} cell forms in one row, one of them repeated below, under each of {n} edits"),
            (k * k * n) as u64,
            move |i| {
                let mut d = Dig(i);
                let (x, y) = (d.take(k), d.take(k));
                format!("{} {}; {:?}", CELLS[x], CELLS[y], e2[d.0 as usize])
            },
            move |i, sc| {
                let mut d = Dig(i);
                let (x, y) = (d.take(k), d.take(k));
                let mut w = base();
                w.sheets[0].2 = fx::sheet(&format!(
                    "<sheetData><row r=\"1\">{}{}</row><row r=\"3\">{}</row></sheetData>",
                    CELLS[x].replace('@', "A1"),
                    CELLS[y].replace('@', "C1").replace("si=\"3\"", "si=\"4\""),
                    CELLS[x].replace('@', "B3").replace("si=\"3\"", "si=\"5\"")
                ));
                Sim::run(Some(&w.zip()), ASPECTS, sc, &edits[d.0 as usize])
            },
        ));
    }
    // every set of row attributes, column attributes
    let attrs = |list: &[&str], bits: usize| -> String { list.iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).map(|(_, a)| *a).collect() };
    {
        let edits = std::sync::Arc::new(vec![
            vec![a(Act::Put(2, 2, vec![num("7")], false)), a(Act::Put(2, 5, vec![num("8")], false))],
            vec![a(Act::Put(1, 2, vec![num("7")], false)), Op::Reopen, a(Act::Row(3, RS { hidden: Some(true), ..Default::default() }))],
            vec![a(Act::Row(2, RS { ht: Some(5.5), ..Default::default() }))],
            vec![a(Act::Row(2, RS { hidden: Some(true), style: Some(0), top: Some(true), ..Default::default() })), Op::Reopen, a(Act::Row(2, RS::default()))],
        ]);
        let n = edits.len();
        let e2 = edits.clone();
        spaces.push(Space::new(
            "row-attributes",
            &format!("rows without a cell, with one, and with one and an extension, with every set of the {} attributes, under each of {n} edits", ROW_ATTRS.len()),
            (3 * n << ROW_ATTRS.len()) as u64,
            move |i| {
                let mut d = Dig(i);
                let (c, e) = (d.take(3), d.take(n));
                format!("<row r=\"2\"{}> {c} cells; {:?}", attrs(ROW_ATTRS, d.0 as usize), e2[e])
            },
            move |i, sc| {
                let mut d = Dig(i);
                let (c, e) = (d.take(3), d.take(n));
                let mut w = base();
                let cell = ROW_CONTENT[c];
                w.sheets[0].2 = fx::sheet(&format!("<sheetData><row r=\"1\"><c r=\"A1\"><v>1</v></c></row><row r=\"2\"{}>{cell}</row></sheetData>", attrs(ROW_ATTRS, d.0 as usize)));
                Sim::run(Some(&w.zip()), ASPECTS, sc, &edits[e])
            },
        ));
    }
    {
        let edits = std::sync::Arc::new(vec![
            vec![a(Act::Nop)],
            vec![a(Act::Col(3, Some(ColS { width: Some(8.0), ..Default::default() }), false))],
            vec![a(Act::Col(4, Some(ColS { hidden: Some(true), style: Some(0), ..Default::default() }), true)), Op::Reopen, a(Act::Col(4, None, false))],
            vec![a(Act::Col(2, None, false)), Op::Reopen, a(Act::Nop)],
            vec![a(Act::Put(1, 3, vec![num("7")], false))],
            vec![a(Act::Col(9, Some(ColS { best: Some(true), ..Default::default() }), true)), a(Act::BadCol(16385))],
        ]);
        let n = edits.len();
        let e2 = edits.clone();
        spaces.push(Space::new(
            "column-attributes",
            &format!("column ranges with every set of the {} attributes between two others, under each of {n} edits", COL_ATTRS.len()),
            (n << COL_ATTRS.len()) as u64,
            move |i| {
                let mut d = Dig(i);
                let e = d.take(n);
                format!("<col min=\"2\" max=\"4\"{}/>; {:?}", attrs(COL_ATTRS, d.0 as usize), e2[e])
            },
            move |i, sc| {
                let mut d = Dig(i);
                let e = d.take(n);
                let mut w = base();
                w.sheets[0].2 = fx::sheet(&format!("<cols><col min=\"1\" max=\"1\" width=\"3\" outlineLevel=\"1\"/><col min=\"2\" max=\"4\"{}/><col min=\"6\" max=\"16384\" style=\"2\"/></cols>{DATA}", attrs(COL_ATTRS, d.0 as usize)));
                Sim::run(Some(&w.zip()), ASPECTS, sc, &edits[e])
            },
        ));
    }
    // attributes of sheet views, of the format defaults and of workbook elements, in pairs
    {
        let k = VIEW_ATTRS.len();
        let edits = std::sync::Arc::new(vec![
            vec![a(Act::Nop)],
            vec![a(Act::Put(3, 3, vec![num("1")], false)), Op::Reopen, a(Act::Nop)],
            vec![Op::Active("B"), a(Act::Row(1, RS { hidden: Some(true), ..Default::default() })), Op::H(false)],
        ]);
        let n = edits.len();
        let e2 = edits.clone();
        let pair = move |i: usize, j: usize| if i == j { VIEW_ATTRS[i].to_string() } else { format!("{}{}", VIEW_ATTRS[i], VIEW_ATTRS[j]) };
        let inner = ["", "<pane xSplit=\"2\" topLeftCell=\"C1\" activePane=\"topRight\" state=\"frozen\"/><selection pane=\"topRight\" activeCell=\"C1\" sqref=\"C1\"/>", "<selection sqref=\"A1 B2:B3\" activeCell=\"B2\" activeCellId=\"1\"/>"];
        spaces.push(Space::new(
            "view-attributes",
            &format!("sheet views with every pair of {k} attributes and three kinds of content, one or two views, under each of {n} edits"),
            (k * k * n * 3 * 2) as u64,
            move |i| {
                let mut d = Dig(i);
                let (x, y, e, c, v) = (d.take(k), d.take(k), d.take(n), d.take(3), d.take(2));
                format!("{} content {c}, {} views; {:?}", pair(x, y), v + 1, e2[e])
            },
            move |i, sc| {
                let mut d = Dig(i);
                let (x, y, e, c, v) = (d.take(k), d.take(k), d.take(n), d.take(3), d.take(2));
                let mut w = base();
                let one = format!("<sheetView{} workbookViewId=\"0\">{}</sheetView>", pair(x, y), inner[c]);
                let two = if v == 1 { format!("<sheetView workbookViewId=\"1\"{}/>", VIEW_ATTRS[y]) } else { String::new() };
                w.views = "<bookViews><workbookView windowWidth=\"5\"/><workbookView windowWidth=\"6\" activeTab=\"1\" showHorizontalScroll=\"0\"/></bookViews>".into();
                w.sheets[0].2 = fx::sheet(&format!("<sheetViews>{one}{two}</sheetViews>{DATA}"));
                Sim::run(Some(&w.zip()), ASPECTS, sc, &edits[e])
            },
        ));
    }
    spaces.push(super::spell::space(deep));
    spaces.push(super::spell::syntax(deep));
    spaces.push(super::spell::homonyms(deep));
    spaces.push(super::forms::space(deep, ASPECTS));
    Check {
        id: "C14",
        level: "model_checking",
        rule: "a case is a workbook with a chosen set of content and a sequence of edits, run on a reference model and on the library in lockstep; after every save the sheets and the workbook are compared with the source part by part by an independent reader, except for what the edits concern; distinct by source and sequence",
        assumptions: vec!["a formula overwritten by the edit may belong to a group (array, shared) whose other cells keep what they store", "references to a renamed or deleted sheet inside formulas and names stay as they are"],
        spaces,
    }
}
/// Sources with every element, cell form and attribute of a sheet and a workbook; used for other checks.
pub fn source_kinds(k: usize) -> Vec<(&'static str, String, u64, std::sync::Arc<dyn Fn(u64) -> (String, Vec<u8>) + Send + Sync>)> {
    let attrs = |list: &[&str], bits: usize| -> String { list.iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).map(|(_, a)| *a).collect() };
    let mut v: Vec<(&'static str, String, u64, std::sync::Arc<dyn Fn(u64) -> (String, Vec<u8>) + Send + Sync>)> = vec![];
    let subs = subsets(WS, k);
    v.push((
        "sheet-elements",
        format!("worksheets with every set of up to {k} of {} child elements, and all but up to {k}", WS.len() - 1),
        subs.len() as u64,
        std::sync::Arc::new(move |i| {
            let s = &subs[i as usize];
            let (pre, post) = compose(WS, s);
            let mut w = base();
            w.sheets[0].2 = fx::sheet(&format!("{pre}{DATA}{post}"));
            (format!("{s:?}"), w.zip())
        }),
    ));
    let subs = subsets(WBE, k);
    v.push((
        "workbook-elements",
        format!("workbooks with every set of up to {k} of {} child elements, and all but up to {k}", WBE.len() - 1),
        subs.len() as u64,
        std::sync::Arc::new(move |i| {
            let s = &subs[i as usize];
            let (pre, post) = compose(WBE, s);
            let mut w = base();
            w.pre = pre;
            w.post = post;
            (format!("{s:?}"), w.zip())
        }),
    ));
    let c = CELLS.len();
    v.push((
        "cell-forms",
        format!("every pair of {c} cell forms"),
        (c * c) as u64,
        std::sync::Arc::new(move |i| {
            let mut d = Dig(i);
            let (x, y) = (d.take(c), d.take(c));
            let mut w = base();
            w.sheets[0].2 = fx::sheet(&format!(
                "<sheetData><row r=\"1\">{}{}</row><row r=\"3\">{}</row></sheetData>",
                CELLS[x].replace('@', "A1"),
                CELLS[y].replace('@', "C1").replace("si=\"3\"", "si=\"4\""),
                CELLS[x].replace('@', "B3").replace("si=\"3\"", "si=\"5\"")
            ));
            (format!("{} {}", CELLS[x], CELLS[y]), w.zip())
        }),
    ));
    v.push((
        "row-attributes",
        format!("every set of {} row attributes", ROW_ATTRS.len()),
        3 << ROW_ATTRS.len(),
        std::sync::Arc::new(move |i| {
            let mut d = Dig(i);
            let cell = ROW_CONTENT[d.take(3)];
            let a = attrs(ROW_ATTRS, d.0 as usize);
            let mut w = base();
            w.sheets[0].2 = fx::sheet(&format!("<sheetData><row r=\"1\"><c r=\"A1\"><v>1</v></c></row><row r=\"2\"{a}>{cell}</row></sheetData>"));
            (format!("{a} {cell}"), w.zip())
        }),
    ));
    v.push((
        "column-attributes",
        format!("every set of {} column attributes", COL_ATTRS.len()),
        1 << COL_ATTRS.len(),
        std::sync::Arc::new(move |i| {
            let a = attrs(COL_ATTRS, i as usize);
            let mut w = base();
            w.sheets[0].2 = fx::sheet(&format!("<cols><col min=\"1\" max=\"1\" width=\"3\" outlineLevel=\"1\"/><col min=\"2\" max=\"4\"{a}/><col min=\"6\" max=\"16384\" style=\"2\"/></cols>{DATA}"));
            (a, w.zip())
        }),
    ));
    let n = VIEW_ATTRS.len();
    v.push((
        "view-attributes",
        format!("every pair of {n} view attributes"),
        (n * n) as u64,
        std::sync::Arc::new(move |i| {
            let mut d = Dig(i);
            let (x, y) = (d.take(n), d.take(n));
            let p = if x == y { VIEW_ATTRS[x].to_string() } else { format!("{}{}", VIEW_ATTRS[x], VIEW_ATTRS[y]) };
            let mut w = base();
            w.views = "<bookViews><workbookView windowWidth=\"5\"/><workbookView windowWidth=\"6\" activeTab=\"1\" showHorizontalScroll=\"0\"/></bookViews>".into();
            w.sheets[0].2 = fx::sheet(&format!("<sheetViews><sheetView{p} workbookViewId=\"0\"><selection sqref=\"A1\"/></sheetView><sheetView workbookViewId=\"1\"{}/></sheetViews>{DATA}", VIEW_ATTRS[y]));
            (p, w.zip())
        }),
    ));
    v
}
