#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept so that the list stays readable in one place."""
import json, os
P=[]
def p(id,title,statement,over,quant,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=quant),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
S="rs/src/spreadsheet/spreadsheet_2007/"; G="rs/src/global/global_2007/"; F="rs/src/files/"

p("C01","Every saved file is a valid, closed OPC package",
 "Whatever calls were made before it, a save that reports success leaves a file that is a valid OPC package: part names are unique, every part has exactly one content type and no declaration is empty, duplicated or conflicting, every XML part is well-formed, relationship ids are unique per source, and every internal relationship leads to a part that is in the package. A part that was removed (a deleted sheet) is gone from the package together with its relationship and its content type. A document created from nothing has the parts its format requires, reachable from the package root.",
 ["histories","inputs"],"all API call sequences up to the bound, on new and on opened packages",
 "The tests save a handful of fixed documents and never inspect the package; validity depends on which parts were created, opened, closed and deleted, in which order.",
 [F+"office_document.rs",G+"parts/content_types.rs",G+"parts/relations.rs",S+"parts/workbook.rs"],
 [("content type part generated from the collection of parts at save","OfficeDocument::save_database_into_archive, ContentTypesPart::create_xml_file"),("relationship ids allocated from the existing ones","RelationsPart::get_next_relationship_id")],
 ["the bytes of the file save_as wrote"],
 [("archive_collection / xml_document_collection","closed (compressed) parts and open parts of the document","OfficeDocument")])
p("C02","Parts the library does not interpret survive open and save unchanged",
 "Opening an existing workbook, document or presentation and saving it again keeps every part the library does not interpret, under the same name, with the same bytes, the same content type and the same relationships (id, type, target, target mode). This holds whatever edits are made in between, except for parts belonging to a sheet that was deleted.",
 ["inputs","histories"],"all packages of the generated family (extra parts in any directory, with any extension, typed by Default or Override, reached by relative or absolute targets), all short edit histories",
 "Two fixture files are opened by the tests and nothing is compared afterwards.",
 [F+"office_document.rs",G+"parts/content_types.rs",G+"parts/relations.rs"],
 [("every zip entry is loaded with its content type and written back at save","OfficeDocument::load_archive_into_database, save_database_into_archive")],
 ["source package against saved package"])
p("C03","Rewriting an XML part keeps its information",
 "When an XML part is read and written back, everything the library was not asked to change keeps its information content: element names, nesting and order, namespaces, attributes and their values, and text including leading, trailing and inner white space, however the source spelled it (character and entity references, CDATA, comments, self-closing tags, quoting, prefixes). Mixed content (text beside child elements) is outside this guarantee.",
 ["inputs"],"all XML trees up to the node bound over the shape, name, namespace, attribute and text alphabets, as core-properties, relationship, style, workbook and sheet content",
 "No test compares the XML before and after; the failure depends on particular characters and nesting that the two fixtures do not contain.",
 [F+"xml/xml_serialize.rs",F+"xml/xml_deserialize.rs",F+"xml/xml_tree.rs"],
 [("event parser into a flat id-indexed tree","XmlSerializer::xml_element_parser"),("tree writer with escaping","XmlDeSerializer::build_xml_tree")],
 ["infoset of a part before opening against after saving"],
 [("namespace_collection","document-wide table of namespace declarations","XmlDocument")])
p("C04","A cell value reads back exactly as it was written",
 "A cell value written with a data type is found in the saved file, and again after the file is opened and saved, as that value with that type: text of every kind character for character, numbers with the same numeric text, booleans, errors and formulas. With automatic typing a value is stored as a boolean or a number only when its text denotes one that a spreadsheet can store, and as text in every other case. A text that cannot be represented in the file is refused or stored escaped, and never makes the file unreadable.",
 ["inputs"],"all strings up to the length bound over an adversarial alphabet, all data types, with and without formula, on new and reopened sheets",
 "The tests write a few plain ASCII values and never read them back.",
 [S+"parts/worksheet.rs",S+"services/share_string.rs",F+"xml/xml_deserialize.rs",F+"xml/xml_serialize.rs"],
 [("data type inference","WorkSheet::set_row_value_index_mut"),("shared string lookup","ShareStringPart::get_id_mut")],
 ["cells of the saved sheet resolved through the shared string table"])
p("C05","Cell addresses map one-to-one onto the grid and bad ones are refused",
 "Every valid A1-style reference and every valid row and column index address exactly the cell a spreadsheet means by it, over all 16384 columns and 1048576 rows, whichever way the cell is addressed. An address outside the grid or one that is not a cell reference is refused with an error and leaves the sheet as it was; it never aborts the program and never lands on another cell.",
 ["inputs"],"all 16384 columns, boundary rows, all reference strings up to the length bound over letters, digits and separators",
 "The tests use a few fixed references; the conversions are arithmetic over the whole column range and the malformed cases are not tried at all.",
 ["rs/src/utils/converters.rs",S+"parts/worksheet.rs",S+"services/common_service.rs"],
 [("base-26 conversion both ways","ConverterUtil"),("bounds of the address","WorkSheet::set_row_value_index_mut")],
 ["r attributes of the saved cells"])
p("C06","A sheet is a last-writer-wins grid of cells and row properties",
 "After any sequence of cell writes and row property changes, in any order and spread over any number of open, close, save and reopen steps, the saved sheet contains exactly the cells written, each with the last value, type, formula and style written to it, and exactly the row properties last set. Rows and the cells within them are in ascending order without duplicates, and the recorded used range covers exactly the cells present.",
 ["histories"],"all operation sequences up to the depth bound over overlapping cells and rows, with save and reopen as operations",
 "Each test writes one fixed pattern once and does not read it back; overwriting, out-of-order writing and reopening interact.",
 [S+"parts/worksheet.rs"],
 [("row and cell maps rebuilt from the sheet and written back when the sheet is closed","WorkSheet::initialize_worksheet, WorkSheet::close_document")],
 ["sheetData and dimension of the saved sheet"],
 [("row_collection","rows of the open sheet","WorkSheet")])
p("C07","Sheets keep their names, order, content and state through management calls",
 "After any sequence of adding, renaming, deleting, hiding, activating and getting sheets, the workbook lists exactly the sheets a plain ordered list would contain: names unique, order of creation kept, each sheet's content following it through renames and through the removal of others, visibility changed only for the sheet it was asked for, and the active sheet the one last activated. A call that cannot be carried out reports an error and changes nothing. What is listed is what a reopened copy of the saved file contains.",
 ["histories"],"all sequences of sheet operations up to the depth bound, over colliding names, on new and opened workbooks, with save and reopen as operations",
 "The one test of sheet handling runs a single scenario.",
 [S+"parts/workbook.rs",S+"parts/worksheet.rs",S+"services/common_service.rs",G+"parts/relations.rs"],
 [("sheet collection mirrored into the workbook part at save","WorkbookPart::add_sheet_mut, rename_sheet_name_mut, hide_sheet_mut, set_active_sheet_mut; WorkSheet::delete_sheet_mut")],
 ["list_sheet_names and the sheets element of the saved workbook with the relationship of each sheet"],
 [("sheet_collection","name, relationship id, active and hidden flag of each sheet","CommonServices / WorkbookPart")])
p("C08","The shared string table stays consistent with every cell that refers to it",
 "Entries already present in an opened workbook's shared string table keep their index and their content, including empty, rich-text, phonetic and white-space entries, so every existing cell keeps its text. New text is appended or reuses an equal plain entry, never a rich one, so every cell written reads as the text written, and no cell refers outside the table.",
 ["inputs","histories"],"all tables up to the bound over plain, empty, rich, phonetic, duplicate and white-space entries, combined with all short write sequences and reopen",
 "The fixture's table holds plain strings only and no test resolves an index.",
 [S+"services/share_string.rs"],
 [("string to index map loaded from the part and written back at save","ShareStringPart::initialize_content_xml, get_id_mut, close_document")],
 ["t=\"s\" cells of the saved sheets resolved through the saved table"])
p("C09","A style id stands for exactly the formatting that was requested",
 "A style id returned for a style setting resolves, in the saved file, to exactly the requested font, fill, borders, number format and alignment, and stays valid for every cell, row and column it was given to. Equal settings yield one id, different settings yield ids that resolve differently, and every format record that was already in an opened file keeps its index and content.",
 ["inputs","histories"],"all settings reachable by up to two deviations from the default over all public fields, all sequences of up to three requests, on new and opened workbooks",
 "The tests request a few styles and check only that no error is reported.",
 [S+"services/style.rs",S+"models/style.rs"],
 [("record tables loaded from the style part, extended on request and written back","StylePart::get_style_id_mut, initialize_content_xml, close_document")],
 ["cellXfs, fonts, fills, borders and numFmts of the saved file, resolved from the s attribute"])
p("C10","Column properties form a disjoint map from column to properties",
 "After any sequence of setting and clearing column properties, including on sheets that already contain overlapping column ranges, every column has exactly the properties last set for it and every other column keeps what it had. The saved column ranges are within the grid, ascending and do not overlap.",
 ["histories","inputs"],"all sequences of set/clear up to the depth bound over adjacent columns, on sheets with and without existing ranges, with reopen",
 "The column test sets isolated columns on a new sheet and does not read them back; splitting an existing range is never exercised.",
 [S+"parts/worksheet.rs"],
 [("column ranges split around the addressed column","WorkSheet::set_column_index_properties_mut, set_column_ref_properties_mut")],
 ["cols element of the saved sheet expanded per column"])
p("C11","Workbook view settings persist independently of each other",
 "Each workbook view setting (window visibility, minimised, sheet tabs, horizontal and vertical scroll bars) reads back from the saved file as last set, through any number of reopenings. Setting one of them leaves the others, and every view attribute the library has no setting for, as they were in the opened file.",
 ["histories","inputs"],"all assignments and all sequences of setter calls up to the depth bound, over all combinations of initial attributes and multiple views, with reopen",
 "The one test sets all flags once on a new workbook and does not read them back.",
 [S+"parts/workbook.rs"],
 [("view settings loaded from and written to bookViews","WorkbookPart::load_workbook_view, save_workbook_view")],
 ["bookViews of the saved workbook"])
p("C12","A failed or interrupted save never costs the user the existing file",
 "If saving over an existing file fails at any point, or the process dies at any point during it, the target path still holds either the complete previous content or the complete new content, and a failed save reports an error. A save that reports success has written the complete new package, also when the operating system splits or interrupts the writes, and leaves no other file behind; the source file of an opened document is never modified unless it is the save target.",
 ["crash_points","fault_sequences"],"every file-system call of the save as the point of a failure, a short or interrupted write, or a crash, for new and existing targets",
 "The tests only ever see saves that succeed.",
 [F+"office_document.rs","rs/src/utils/file_handling.rs"],
 [("the package is built in memory before the target is touched","OfficeDocument::save_as")],
 ["the target directory after the injected fault or crash, and the result of save_as"])
p("C13","Open and save reaches a fixed point: nothing grows or drifts",
 "Opening a saved file and saving it again without edits yields the same package: same parts, relationships, content types and XML content, apart from the recorded modification time. This also holds with sheets opened and closed in between without changes, so repeated cycles add, drop, duplicate or reorder nothing.",
 ["histories","inputs"],"all generated packages and all states reached by the other checks' histories, over repeated cycles, with each subset of sheets touched",
 "No test opens what it saved.",
 [F+"office_document.rs",S+"parts/workbook.rs",S+"parts/worksheet.rs",S+"services/style.rs",S+"services/share_string.rs"],
 [("load and close of each part are meant to be inverse to each other","initialize_content_xml / close_document of each part")],
 ["two successive saved packages, compared part by part as XML information"])
p("C14","Editing a sheet preserves everything in it the edit does not concern",
 "Opening and editing a sheet of an existing workbook keeps all other content of that sheet: cells of every kind with their formulas' kind and range, inline and rich text, row and column attributes, views with panes and selections, sheet properties and format defaults, and all further elements such as merged cells, protection, validations, conditional formats, hyperlinks, drawings, tables and extensions, in the order the schema requires. The same holds for the workbook's own content (defined names, calculation properties, protection, extensions).",
 ["inputs","histories"],"every schema element of a sheet and of a workbook, alone and in pairs, and every cell form, combined with each edit of the alphabet",
 "The fixture has no such content and nothing is compared after editing.",
 [S+"parts/worksheet.rs",S+"parts/workbook.rs","rs/src/global/references/order_dictionary.rs",F+"xml/xml_tree.rs"],
 [("unknown elements stay in the tree; known ones are popped, modelled and re-inserted in dictionary order","WorkSheet::initialize_worksheet, WorkSheet::close_document, order_child_mut")],
 ["sheet and workbook part before and after, as XML information"])
p("C15","Handles to parts compose: any order of opening, using and dropping them is safe",
 "Any interleaving of opening, writing through and releasing handles to several sheets of a workbook gives the result of performing each handle's writes in order on its sheet. Asking for a handle that is already out is refused without harm to the first one, a handle outliving a rename still reaches its sheet, a deleted sheet cannot be resurrected by an old handle, and neither operations nor a save with handles still out loses content silently.",
 ["schedules","histories"],"all interleavings of up to three handles' open/write/release steps with workbook operations and save",
 "Tests hold one handle at a time.",
 [S+"parts/worksheet.rs",S+"parts/workbook.rs",F+"office_document.rs",G+"traits/xml_parts.rs"],
 [("parts are moved out of the archive while open and moved back when closed or dropped","OfficeDocument::get_xml_tree_mut, close_xml_document; Drop of the parts")],
 ["results of the calls and the saved sheets"])
p("C16","The calculation chain lists exactly cells that hold formulas",
 "In every saved workbook, each entry of the calculation chain names an existing sheet and a cell of it that holds a formula, with no entry twice, and entries of formulas that were not touched are kept with their attributes. Overwriting a formula, deleting its sheet, or adding sheets never leaves an entry that points to something else.",
 ["histories","inputs"],"all sequences of formula writes, overwrites, sheet deletions and reopenings up to the depth bound, from chains with and without omitted sheet ids",
 "No test looks at the calculation chain; an inconsistent chain makes a spreadsheet application report the file as damaged.",
 [S+"services/calculation_chain.rs",S+"parts/worksheet.rs",S+"parts/workbook.rs"],
 [("chain loaded, extended on formula writes and written at save","CalculationChainPart")],
 ["calcChain part of the saved file against the formulas of the saved sheets"])
p("C17","Core properties change only where they should",
 "Saving records the time of the save as the modification time and leaves every other core property of an opened document, including its creation time and properties the library does not know, as it was. A new document gets a creation time that later saves keep.",
 ["inputs","histories"],"all subsets of core properties present in the source, all document kinds, repeated saves under a controlled clock",
 "No test reads the core properties.",
 [G+"parts/core_properties.rs"],
 [("core properties part updated on flush","CorePropertiesPart::update_last_modified")],
 ["docProps/core.xml of the saved package, clock supplied by the check"])
p("C18","Malformed input yields an error, never a panic or silent damage",
 "Opening any file, however truncated, corrupted or incomplete, and working with what opened, reports an error or succeeds; it never panics, never fails to terminate, and never changes the source file. If a part is malformed and saving still succeeds, that part's content is not silently dropped or half-written.",
 ["inputs","fault_sequences"],"every truncation, every single-byte change from an alphabet, every missing part, every removed or emptied attribute and element, and every read fault of a set of packages",
 "The tests open two valid files.",
 [F+"office_document.rs",F+"xml/xml_serialize.rs",G+"parts/content_types.rs",G+"parts/relations.rs",S+"services/calculation_chain.rs",S+"services/style.rs",S+"parts/workbook.rs",S+"parts/worksheet.rs"],
 [("every fallible step returns a contextual error","anyhow::Context throughout")],
 ["result of new, get_worksheet_mut and save_as; the source file"])
p("C19","Results do not depend on hash order, time, or other open documents",
 "The same calls on the same source give the same package content on every run, whatever the iteration order of hash tables, and repeated calls give the same returned ids and errors. Documents open at the same time, in one thread or several, do not influence each other.",
 ["schedules","configurations"],"all seeds of a set of hash seeds for each history; all interleavings of two documents' call sequences",
 "Hash seeds are random per run, so a test samples one order; no test opens two documents.",
 [F+"office_document.rs",F+"xml/xml_tree.rs",G+"parts/content_types.rs",S+"services/style.rs"],
 [("ordering is restored where it matters (sorted keys, order dictionary)","XmlDeSerializer::generate_xml_element, order_child_mut")],
 ["canonical content of the packages saved by the same history"])
p("C20","The foreign-function interface keeps its pointer and buffer contract",
 "Calls through the C ABI accept and return handles and buffers without leaking, double-freeing or reading outside the buffers they were given, and report every library error as a status code.",
 ["inputs","histories"],"all call sequences over valid, null and stale handles",
 "There are no tests of the interface, and it does not build here.",
 ["rs_ffi/src"],[("boxed handles passed as raw pointers","rs_ffi")],["C ABI"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
import re
for d in P:
    assert len(d["title"])<=80,d["id"]
print(len(P))
