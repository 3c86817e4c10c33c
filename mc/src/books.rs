//! Source workbooks the explorations start from.
use crate::fx::{self, Wb};
use crate::opc::*;

pub const R_NS: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
pub const STYLES_RICH: &str = concat!(
    "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<styleSheet xmlns=\"http://schemas.openxmlformats.org/spreadsheetml/2006/main\" xmlns:mc=\"http://schemas.openxmlformats.org/markup-compatibility/2006\" mc:Ignorable=\"x14ac\" xmlns:x14ac=\"http://schemas.microsoft.com/office/spreadsheetml/2009/9/ac\">",
    "<numFmts count=\"2\"><numFmt numFmtId=\"164\" formatCode=\"0.0\"/><numFmt numFmtId=\"170\" formatCode=\"&quot;a&quot;0\"/></numFmts>",
    "<fonts count=\"4\" x14ac:knownFonts=\"1\"><font><sz val=\"11\"/><color theme=\"1\"/><name val=\"Calibri\"/><family val=\"2\"/><scheme val=\"minor\"/></font>",
    "<font><b/><sz val=\"11\"/><color theme=\"1\"/><name val=\"Calibri\"/><family val=\"2\"/><scheme val=\"minor\"/></font>",
    "<font><b/><strike/><sz val=\"11\"/><color theme=\"1\"/><name val=\"Calibri\"/><family val=\"2\"/></font>",
    "<font><i val=\"0\"/><u val=\"double\"/><vertAlign val=\"superscript\"/><sz val=\"9.5\"/><color rgb=\"FF112233\" tint=\"-0.25\"/><name val=\"A &amp; B\"/><charset val=\"238\"/></font></fonts>",
    "<fills count=\"5\"><fill><patternFill patternType=\"none\"/></fill><fill><patternFill patternType=\"gray125\"/></fill><fill><patternFill patternType=\"darkGrid\"><fgColor indexed=\"10\"/><bgColor theme=\"4\" tint=\"0.4\"/></patternFill></fill>",
    "<fill><gradientFill degree=\"90\"><stop position=\"0\"><color rgb=\"FF00FF00\"/></stop><stop position=\"1\"><color theme=\"0\"/></stop></gradientFill></fill><fill><patternFill patternType=\"solid\"><fgColor rgb=\"FFFFFF00\"/><bgColor indexed=\"64\"/></patternFill></fill></fills>",
    "<borders count=\"3\"><border><left/><right/><top/><bottom/><diagonal/></border><border diagonalUp=\"1\"><left style=\"thin\"><color auto=\"1\"/></left><right/><top/><bottom/><diagonal style=\"hair\"><color indexed=\"8\"/></diagonal></border>",
    "<border outline=\"0\"><left/><right/><top style=\"medium\"/><bottom/><diagonal/><vertical/><horizontal/></border></borders>",
    "<cellStyleXfs count=\"2\"><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\"/><xf numFmtId=\"9\" fontId=\"1\" fillId=\"0\" borderId=\"0\" applyFont=\"0\"/></cellStyleXfs>",
    "<cellXfs count=\"5\"><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\"/><xf numFmtId=\"164\" fontId=\"2\" fillId=\"2\" borderId=\"1\" xfId=\"1\" quotePrefix=\"1\" applyNumberFormat=\"1\" applyFont=\"1\" applyFill=\"1\" applyBorder=\"1\" applyAlignment=\"1\" applyProtection=\"1\"><alignment horizontal=\"centerContinuous\" vertical=\"distributed\" textRotation=\"45\" wrapText=\"1\" indent=\"2\" shrinkToFit=\"1\" readingOrder=\"2\"/><protection locked=\"0\" hidden=\"1\"/></xf>",
    "<xf numFmtId=\"14\" fontId=\"0\" fillId=\"3\" borderId=\"2\" xfId=\"0\" applyNumberFormat=\"1\"/><xf numFmtId=\"0\" fontId=\"3\" fillId=\"4\" borderId=\"0\" xfId=\"0\" pivotButton=\"1\"><extLst><ext uri=\"{a}\"/></extLst></xf><xf numFmtId=\"0\" fontId=\"1\" fillId=\"0\" borderId=\"0\" xfId=\"0\" applyFont=\"1\"/></cellXfs>",
    "<cellStyles count=\"2\"><cellStyle name=\"Normal\" xfId=\"0\" builtinId=\"0\"/><cellStyle name=\"Mine\" xfId=\"1\"/></cellStyles>",
    "<dxfs count=\"1\"><dxf><font><color rgb=\"FF9C0006\"/></font><fill><patternFill><bgColor rgb=\"FFFFC7CE\"/></patternFill></fill></dxf></dxfs>",
    "<tableStyles count=\"1\" defaultTableStyle=\"T\"><tableStyle name=\"T\" count=\"1\"><tableStyleElement type=\"wholeTable\" dxfId=\"0\"/></tableStyle></tableStyles>",
    "<colors><mruColors><color rgb=\"FF123456\"/></mruColors></colors><extLst><ext uri=\"{b}\"><q xmlns=\"urn:q\"/></ext></extLst></styleSheet>");

/// Shared strings: plain, empty, rich, white space, duplicate, phonetic, equal text but rich, plain again.
pub fn sst_rich() -> String {
    format!(
        "{}<sst xmlns=\"{}\" count=\"12\" uniqueCount=\"9\">{}</sst>",
        fx::DECL,
        fx::X,
        concat!(
            "<si><t>alpha</t></si>",
            "<si><t/></si>",
            "<si><r><t>be</t></r><r><rPr><b/><sz val=\"11\"/></rPr><t xml:space=\"preserve\"> ta</t></r></si>",
            "<si><t xml:space=\"preserve\">  gamma </t></si>",
            "<si><t>alpha</t></si>",
            "<si><t>課</t><rPh sb=\"0\" eb=\"1\"><t>カ</t></rPh><phoneticPr fontId=\"1\"/></si>",
            "<si><r><t>delta</t></r></si>",
            "<si><t>a&amp;b&lt;c&gt; \"q\"</t></si>",
            "<si/>"
        )
    )
}
/// Two sheets with cells of every kind, shared strings, formulas with a calculation chain.
pub fn plain() -> Wb {
    let mut w = Wb::new(&["A", "B"]);
    w.sheets[0].2 = fx::sheet(concat!(
        "<dimension ref=\"A1:D3\"/><sheetViews><sheetView tabSelected=\"1\" workbookViewId=\"0\"/></sheetViews><sheetFormatPr defaultRowHeight=\"15\"/><cols><col min=\"1\" max=\"2\" width=\"9.5\" customWidth=\"1\"/><col min=\"4\" max=\"6\" width=\"20\" customWidth=\"1\" hidden=\"1\"/></cols>",
        "<sheetData><row r=\"1\" spans=\"1:4\"><c r=\"A1\"><v>1.50</v></c><c r=\"B1\" t=\"s\"><v>0</v></c><c r=\"D1\" t=\"b\"><v>1</v></c></row>",
        "<row r=\"3\" ht=\"30\" customHeight=\"1\"><c r=\"A3\"><f>A1*2</f><v>3</v></c><c r=\"B3\" s=\"0\" t=\"e\"><v>#N/A</v></c><c r=\"C3\" t=\"str\"><f>B1&amp;\"x\"</f><v>alphax</v></c></row></sheetData>"
    ));
    w.sheets[1].2 = fx::sheet("<sheetData><row r=\"2\"><c r=\"B2\" t=\"s\"><v>3</v></c><c r=\"C2\"><f>1+1</f><v>2</v></c></row></sheetData>");
    w.sst = Some(sst_rich());
    w.calc = Some(format!("{}<calcChain xmlns=\"{}\"><c r=\"A3\" i=\"1\"/><c r=\"C3\" i=\"1\" l=\"1\"/><c r=\"C2\" i=\"2\" s=\"1\"/></calcChain>", fx::DECL, fx::X));
    w
}
pub const RICH_A: &str = concat!(
    "<sheetPr codeName=\"ShA\" filterMode=\"1\"><tabColor rgb=\"FFFF0000\"/><outlinePr summaryBelow=\"0\"/><pageSetUpPr fitToPage=\"1\"/></sheetPr><dimension ref=\"A1:E9\"/>",
    "<sheetViews><sheetView showGridLines=\"0\" tabSelected=\"1\" zoomScale=\"85\" workbookViewId=\"0\"><pane xSplit=\"1\" ySplit=\"2\" topLeftCell=\"B3\" activePane=\"bottomRight\" state=\"frozen\"/><selection pane=\"topRight\" activeCell=\"B1\" sqref=\"B1\"/><selection pane=\"bottomRight\" activeCell=\"C4\" sqref=\"C4:D5 F1\"/></sheetView><sheetView rightToLeft=\"1\" workbookViewId=\"1\"/><extLst><ext uri=\"{v}\"/></extLst></sheetViews>",
    "<sheetFormatPr baseColWidth=\"8\" defaultRowHeight=\"15.75\" customHeight=\"1\" zeroHeight=\"0\" outlineLevelRow=\"2\" x14ac:dyDescent=\"0.25\" xmlns:x14ac=\"http://schemas.microsoft.com/office/spreadsheetml/2009/9/ac\"/>",
    "<cols><col min=\"1\" max=\"1\" width=\"9.140625\" style=\"1\" customWidth=\"1\"/><col min=\"2\" max=\"4\" width=\"12\" outlineLevel=\"2\" collapsed=\"1\" customWidth=\"1\"/><col min=\"6\" max=\"16384\" hidden=\"1\" bestFit=\"1\" phonetic=\"1\"/></cols>",
    "<sheetData><row r=\"1\" spans=\"1:5\" s=\"1\" customFormat=\"1\" ht=\"20.5\" customHeight=\"1\" outlineLevel=\"1\" x14ac:dyDescent=\"0.3\" xmlns:x14ac=\"http://schemas.microsoft.com/office/spreadsheetml/2009/9/ac\"><c r=\"A1\" s=\"1\" t=\"s\"><v>2</v></c><c r=\"B1\" t=\"inlineStr\"><is><t xml:space=\"preserve\"> in </t></is></c><c r=\"C1\" t=\"inlineStr\"><is><r><rPr><i/></rPr><t>ri</t></r><r><t>ch</t></r></is></c><c r=\"D1\" s=\"2\"><v>45000.25</v></c><c r=\"E1\" s=\"3\"/></row>",
    "<row r=\"2\" hidden=\"1\" collapsed=\"1\"><c r=\"A2\"><f t=\"shared\" ref=\"A2:A4\" si=\"0\">D2+1</f><v>1</v></c><c r=\"B2\"><f t=\"array\" ref=\"B2:C2\" aca=\"1\">{1,2}</f><v>1</v></c><c r=\"C2\"><v>2</v></c></row>",
    "<row r=\"3\"><c r=\"A3\"><f t=\"shared\" si=\"0\"/><v>1</v></c><c r=\"B3\" t=\"d\"><v>2020-01-02T00:00:00</v></c><c r=\"C3\" cm=\"1\" vm=\"2\"><v>5</v></c></row>",
    "<row r=\"4\" thickTop=\"1\" thickBot=\"1\" ph=\"1\"><c r=\"A4\"><f t=\"shared\" si=\"0\"/><v>1</v></c><c r=\"D4\" ph=\"1\" t=\"s\"><v>5</v></c></row>",
    "<row r=\"7\" ht=\"3\" customHeight=\"1\"/>",
    "<row r=\"9\"><c r=\"A9\" t=\"str\"><f>\"a\"&amp;\" \"</f><v>a </v></c><c r=\"B9\" t=\"e\"><f>1/0</f><v>#DIV/0!</v></c><c r=\"C9\" t=\"b\"><f>TRUE()</f><v>1</v></c><c r=\"D9\"><f t=\"dataTable\" ref=\"D9:D10\" dt2D=\"1\" dtr=\"1\" r1=\"A1\" r2=\"A2\"/><v>0</v></c></row></sheetData>",
    "<sheetCalcPr fullCalcOnLoad=\"1\"/><sheetProtection sheet=\"1\" objects=\"1\" algorithmName=\"SHA-512\" hashValue=\"aa==\" saltValue=\"bb==\" spinCount=\"100000\"/><protectedRanges><protectedRange sqref=\"A1:A2\" name=\"P\"/></protectedRanges>",
    "<autoFilter ref=\"A1:C9\"><filterColumn colId=\"0\"><filters blank=\"1\"><filter val=\"x &amp; y\"/></filters></filterColumn></autoFilter>",
    "<mergeCells count=\"2\"><mergeCell ref=\"D4:E5\"/><mergeCell ref=\"A7:B8\"/></mergeCells><phoneticPr fontId=\"1\"/>",
    "<conditionalFormatting sqref=\"A1:A9\"><cfRule type=\"cellIs\" dxfId=\"0\" priority=\"1\" operator=\"lessThan\"><formula>A$1&lt;5</formula></cfRule></conditionalFormatting><conditionalFormatting sqref=\"B1\"><cfRule type=\"colorScale\" priority=\"2\"><colorScale><cfvo type=\"min\"/><cfvo type=\"max\"/><color rgb=\"FFFF0000\"/><color rgb=\"FF00FF00\"/></colorScale></cfRule></conditionalFormatting>",
    "<dataValidations count=\"1\"><dataValidation type=\"list\" allowBlank=\"1\" sqref=\"C5\"><formula1>\"a,b\"</formula1></dataValidation></dataValidations>",
    "<hyperlinks><hyperlink ref=\"A1\" r:id=\"rId1\" tooltip=\"t\"/><hyperlink ref=\"A2\" location=\"B!A1\" display=\"d\"/></hyperlinks>",
    "<printOptions gridLines=\"1\"/><pageMargins left=\"0.7\" right=\"0.7\" top=\"0.75\" bottom=\"0.75\" header=\"0.3\" footer=\"0.3\"/><pageSetup paperSize=\"9\" orientation=\"landscape\" r:id=\"rId2\"/><headerFooter><oddHeader>&amp;L&amp;\"Arial\" x </oddHeader></headerFooter>",
    "<rowBreaks count=\"1\" manualBreakCount=\"1\"><brk id=\"3\" max=\"16383\" man=\"1\"/></rowBreaks><ignoredErrors><ignoredError sqref=\"A1\" numberStoredAsText=\"1\"/></ignoredErrors><drawing r:id=\"rId3\"/><legacyDrawing r:id=\"rId4\"/><tableParts count=\"1\"><tablePart r:id=\"rId5\"/></tableParts>",
    "<extLst><ext uri=\"{78C0D931-6437-407d-A8EE-F0AAD7539E65}\" xmlns:x14=\"http://schemas.microsoft.com/office/spreadsheetml/2009/9/main\"><x14:conditionalFormattings><x14:conditionalFormatting xmlns:xm=\"http://schemas.microsoft.com/office/excel/2006/main\"><xm:sqref>A1</xm:sqref></x14:conditionalFormatting></x14:conditionalFormattings></ext></extLst>");

/// Everything a real workbook may contain: three sheets (one hidden, one very hidden), all kinds of
/// parts and relationships.
pub fn rich() -> Wb {
    let mut w = Wb::new(&["A", "B b & <c>", "C"]);
    w.sheets[0].2 = fx::sheet(RICH_A);
    w.sheets[0].1 = "sheetId=\"5\"".into();
    w.sheets[1].1 = "sheetId=\"2\" state=\"hidden\"".into();
    w.sheets[1].2 = fx::sheet("<sheetViews><sheetView workbookViewId=\"0\"/></sheetViews><sheetData><row r=\"1\"><c r=\"A1\" t=\"s\"><v>0</v></c><c r=\"B1\"><f>A!A1</f><v>0</v></c></row></sheetData><pageMargins left=\"1\" right=\"1\" top=\"1\" bottom=\"1\" header=\"0\" footer=\"0\"/>");
    w.sheets[2].1 = "sheetId=\"9\" state=\"veryHidden\"".into();
    w.sheets[2].2 = fx::sheet("<sheetData/><drawing r:id=\"rId1\"/>");
    w.views = "<bookViews><workbookView xWindow=\"-5\" yWindow=\"10\" windowWidth=\"28800\" windowHeight=\"12000\" tabRatio=\"700\" firstSheet=\"1\" activeTab=\"1\" autoFilterDateGrouping=\"0\"/><workbookView visibility=\"hidden\" minimized=\"1\" xWindow=\"1\" windowWidth=\"2\" windowHeight=\"3\" tabRatio=\"1\" activeTab=\"0\"/></bookViews>".into();
    w.wb_attrs = " xmlns:mc=\"http://schemas.openxmlformats.org/markup-compatibility/2006\" mc:Ignorable=\"x15\" xmlns:x15=\"http://schemas.microsoft.com/office/spreadsheetml/2010/11/main\"".into();
    w.pre = "<fileVersion appName=\"xl\" lastEdited=\"7\" lowestEdited=\"7\" rupBuild=\"22228\"/><fileSharing readOnlyRecommended=\"1\"/><workbookPr date1904=\"1\" codeName=\"W\" defaultThemeVersion=\"166925\"/><mc:AlternateContent><mc:Choice Requires=\"x15\"><x15:absPath url=\"C:\\x\\\"/></mc:Choice></mc:AlternateContent><workbookProtection lockStructure=\"1\"/>".into();
    w.post = concat!(
        "<externalReferences><externalReference r:id=\"rIdX\"/></externalReferences>",
        "<definedNames><definedName name=\"G\" comment=\"c &amp; d\">A!$A$1</definedName><definedName name=\"_xlnm.Print_Area\" localSheetId=\"0\">A!$A$1:$B$2</definedName><definedName name=\"L\" localSheetId=\"2\" hidden=\"1\">C!$A$1</definedName><definedName name=\"L\" localSheetId=\"1\">\"x\"</definedName></definedNames>",
        "<calcPr calcId=\"191029\" iterate=\"1\" iterateCount=\"7\"/><extLst><ext uri=\"{140A7094-0E35-4892-8432-C4D2E57EDEB5}\"><x15:workbookPr chartTrackingRefBase=\"1\"/></ext></extLst>"
    )
    .into();
    w.sst = Some(sst_rich());
    w.styles = Some(STYLES_RICH.into());
    w.calc = Some(format!(
        "{}<calcChain xmlns=\"{}\"><c r=\"A2\" i=\"5\" l=\"1\"/><c r=\"A3\"/><c r=\"A4\"/><c r=\"B2\" a=\"1\"/><c r=\"B1\" i=\"2\" t=\"1\"/><c r=\"A9\" i=\"5\" s=\"1\"/><c r=\"B9\"/><c r=\"C9\"/></calcChain>",
        fx::DECL,
        fx::X
    ));
    let p = &mut w.extra;
    p.def("png", "image/png");
    p.def("bin", "application/vnd.openxmlformats-officedocument.spreadsheetml.printerSettings");
    p.def("vml", "application/vnd.openxmlformats-officedocument.vmlDrawing");
    let o = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
    let ct = "application/vnd.openxmlformats-officedocument";
    p.part("xl/theme/theme1.xml", Some(fx::CT_THEME), format!("{}<a:theme xmlns:a=\"http://schemas.openxmlformats.org/drawingml/2006/main\" name=\"Mine &amp; yours\"><a:themeElements><a:clrScheme name=\"x\"><a:dk1><a:sysClr val=\"windowText\" lastClr=\"000000\"/></a:dk1></a:clrScheme></a:themeElements><a:extLst/></a:theme>", fx::DECL));
    p.rel("xl/workbook.xml", "rIdT", R_THEME, "theme/theme1.xml", false);
    p.part("xl/externalLinks/externalLink1.xml", Some("application/vnd.openxmlformats-officedocument.spreadsheetml.externalLink+xml"), format!("{}<externalLink xmlns=\"{}\"/>", fx::DECL, fx::X));
    p.rel("xl/workbook.xml", "rIdX", &format!("{o}/externalLink"), "externalLinks/externalLink1.xml", false);
    p.rel("xl/externalLinks/externalLink1.xml", "rId1", &format!("{o}/externalLinkPath"), "file:///C:/My%20Docs/a&b.xlsx", true);
    p.part("xl/vbaProject.bin", Some("application/vnd.ms-office.vbaProject"), vec![0u8, 1, 2, 255, 254, 0]);
    p.rel("xl/workbook.xml", "rIdV", "http://schemas.microsoft.com/office/2006/relationships/vbaProject", "vbaProject.bin", false);
    p.rel("xl/worksheets/sheet1.xml", "rId1", &format!("{o}/hyperlink"), "http://example.org/?a=1&b=2#frag", true);
    p.part("xl/printerSettings/printerSettings1.bin", None, vec![9u8; 300]);
    p.rel("xl/worksheets/sheet1.xml", "rId2", &format!("{o}/printerSettings"), "../printerSettings/printerSettings1.bin", false);
    p.part("xl/drawings/drawing1.xml", Some(&format!("{ct}.drawing+xml")), format!("{}<xdr:wsDr xmlns:xdr=\"http://schemas.openxmlformats.org/drawingml/2006/spreadsheetDrawing\" xmlns:r=\"{o}\"> <xdr:x r:embed='rId1'/></xdr:wsDr>", fx::DECL));
    p.rel("xl/worksheets/sheet1.xml", "rId3", &format!("{o}/drawing"), "/xl/drawings/drawing1.xml", false);
    p.part("xl/media/image1.png", None, vec![0x89u8, b'P', b'N', b'G', 13, 10, 26, 10, 0]);
    p.rel("xl/drawings/drawing1.xml", "rId1", &format!("{o}/image"), "../media/image1.png", false);
    p.part("xl/drawings/vmlDrawing1.vml", None, "<xml xmlns:v=\"urn:schemas-microsoft-com:vml\"><br></xml>");
    p.rel("xl/worksheets/sheet1.xml", "rId4", &format!("{o}/vmlDrawing"), "../drawings/vmlDrawing1.vml", false);
    p.part("xl/tables/table1.xml", Some(&format!("{ct}.spreadsheetml.table+xml")), format!("{}<table xmlns=\"{}\" id=\"1\" name=\"T\" displayName=\"T\" ref=\"A1:B2\"/>", fx::DECL, fx::X));
    p.rel("xl/worksheets/sheet1.xml", "rId5", &format!("{o}/table"), "../tables/table1.xml", false);
    p.part("xl/comments1.xml", Some(&format!("{ct}.spreadsheetml.comments+xml")), format!("{}<comments xmlns=\"{}\"><authors><author>x</author></authors><commentList/></comments>", fx::DECL, fx::X));
    p.rel("xl/worksheets/sheet1.xml", "rId6", &format!("{o}/comments"), "../comments1.xml", false);
    p.part("xl/drawings/drawing2.xml", Some(&format!("{ct}.drawing+xml")), format!("{}<xdr:wsDr xmlns:xdr=\"http://schemas.openxmlformats.org/drawingml/2006/spreadsheetDrawing\"/>", fx::DECL));
    p.rel("xl/worksheets/sheet3.xml", "rId1", &format!("{o}/drawing"), "../drawings/drawing2.xml", false);
    p.part("docProps/app.xml", Some(fx::CT_APP), "<?xml version='1.0'?>\n<Properties xmlns='http://schemas.openxmlformats.org/officeDocument/2006/extended-properties'><Application>X &amp; Y</Application><!-- c --></Properties>\n");
    p.rel("", "rIdApp", fx::R_APP, "docProps/app.xml", false);
    p.part("customXml/item1.xml", None, "<?xml version=\"1.0\"?><a  b = 'c' >t<!--x--></a >");
    p.rel("xl/workbook.xml", "rIdC", &format!("{o}/customXml"), "../customXml/item1.xml", false);
    p.part("customXml/itemProps1.xml", Some(&format!("{ct}.customXmlProperties+xml")), "<ds:datastoreItem xmlns:ds=\"urn:ds\"/>");
    p.rel("customXml/item1.xml", "rId1", &format!("{o}/customXmlProps"), "itemProps1.xml", false);
    w
}
pub fn pkg_zip(w: &Wb) -> Vec<u8> {
    w.zip()
}
