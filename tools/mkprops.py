import json
W="rs/src/spreadsheet/spreadsheet_2007/"
F=dict(excel=W+"excel.rs",wb=W+"parts/workbook.rs",ws=W+"parts/worksheet.rs",sst=W+"services/share_string.rs",cc=W+"services/calculation_chain.rs",sty=W+"services/style.rs",msty=W+"models/style.rs",mws=W+"models/worksheet.rs",doc="rs/src/files/office_document.rs",par="rs/src/files/xml/xml_serialize.rs",wr="rs/src/files/xml/xml_deserialize.rs",tree="rs/src/files/xml/xml_tree.rs",rel="rs/src/global/global_2007/parts/relations.rs",ct="rs/src/global/global_2007/parts/content_types.rs",core="rs/src/global/global_2007/parts/core_properties.rs",theme="rs/src/global/global_2007/parts/theme.rs",conv="rs/src/utils/converters.rs",order="rs/src/global/references/order_dictionary.rs",elem="rs/src/global/references/element_dictionary.rs",word="rs/src/document/document_2007/word.rs",ppt="rs/src/presentation/presentation_2007/power_point.rs",part="rs/src/global/global_2007/traits/xml_parts.rs")
def P(id,title,stmt,over,text,why,files,mech,observe):
    return dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[F[f] for f in files],mechanism=[dict(name=n,where=F[w]) for n,w in mech],observe_at=[observe]))
SAVED="the saved package (parsed independently) and the results returned by the public API"
L=[
P("P01","Sheet list, order and names follow the session's operations",
 "After any history of opening a workbook and adding, renaming, getting and deleting sheets, the sheet list reported by the session and the list in the saved file both consist of exactly the sheets those operations leave, in order (loaded sheets first, then added ones in order of addition), each under its exact current name. Sheet names are always pairwise distinct, including names the library invents when none is given, and renaming a sheet to a name in use or renaming an unknown sheet fails without effect. A saved and reopened workbook lists the same sheets.",
 ["histories","inputs"],"all sequences of new/open, add (named or unnamed), get, rename, delete, list, save, reopen over any sheet names",
 "the tests run two or three fixed sequences and never look at the result; name collisions, stale names after rename and delete/add interleavings need histories",
 ["excel","wb","ws"],[("add/get/rename/list of sheets","wb"),("sheet part name allocation","ws")],SAVED),
P("P02","Cell contents round-trip: last write wins, nothing else changes",
 "For every history of cell writes to any sheets, the saved file contains in each sheet exactly the cells that were loaded or written, each at its own address with the kind, value and formula of the last write to that address (a row write covers consecutive columns to the right of the start cell). Writing cells leaves every other cell, every row and column setting and every other sheet as it was. This remains true over any number of save and reopen cycles, and a loaded cell that is not written keeps its type, value, formula and style.",
 ["histories","inputs"],"all sequences of row writes (any start cell, length, overlap, cell types) on any sheets of new or loaded workbooks, with reopens",
 "tests write a few fixed rows and only check that save returns; overlap, interleaving of sheets and reopen need arbitrary histories",
 ["ws","sst","mws"],[("row write into the in-memory grid","ws"),("grid load and serialisation","ws")],SAVED),
P("P03","Text survives unchanged, whatever characters it contains",
 "Any text made of characters XML can represent, given as a cell value (shared, inline or formula text), a sheet name or a number-format code, is read back from the saved file character for character - including markup characters, quotes, leading, trailing and repeated spaces, tabs, line breaks and non-BMP characters - and stays the same over any number of open/save cycles. Text containing characters XML cannot represent never makes the saved file ill-formed: the write is rejected, or the file stays well-formed.",
 ["inputs","histories"],"all Unicode strings in every text-carrying API argument and in every text of a loaded file, over repeated open/save",
 "tests only use short ASCII words and never read text back",
 ["par","wr","tree","sst","ws"],[("text escaping on write","wr"),("text and attribute decoding on read","par")],SAVED),
P("P04","Automatic cell typing follows one rule for every value",
 "A value written with automatic typing is stored as a number exactly when it is a finite decimal number literal, as a boolean exactly when it is 'true' or 'false', and as text otherwise; automatic typing never makes a numeric cell whose content is not a number. A value written with an explicit type keeps that type, and an explicit boolean is stored as 0 for 'false', '0' or the empty text in any letter case and as 1 otherwise. A write without value gives an empty cell.",
 ["inputs"],"all strings with each declared cell type",
 "tests use three literals; the boundary between number, boolean and text needs the whole input space",
 ["ws","mws"],[("value classification on row write","ws")],SAVED),
P("P05","Cell addresses map one-to-one and bad addresses are refused",
 "A write to a cell or column reference lands exactly at the column and row the reference denotes under the A1 scheme (A=1 ... XFD=16384, rows 1..1048576, letters in either case), the numeric and the reference forms of an operation agree, and every cell of the saved file carries the reference of its position. References that are not well formed and rows or columns outside the grid are refused with an error, never by a panic, and leave the workbook unchanged.",
 ["inputs"],"all 16384 columns and boundary rows, all reference strings, all numeric indices",
 "tests use a handful of references in columns A to Z",
 ["conv","ws"],[("A1 reference conversion","conv"),("bounds of row/column operations","ws")],SAVED),
P("P06","Row settings hold exactly what was last set",
 "For every row, the saved file carries exactly the height, hidden, thick-top, thick-bottom and style settings last given for that row (a setting given as false or not given is off), and a loaded row that is not set again keeps all its settings, including outline level and collapsed state. Setting row properties never changes cells of the row, other rows, or other sheets, and works on rows with and without cells.",
 ["histories","inputs"],"all sequences of row-setting and cell writes over any rows of new or loaded sheets, with reopens",
 "tests set four rows once and check nothing",
 ["ws","mws"],[("row property store and serialisation","ws")],SAVED),
P("P07","Column settings hold per column and ranges stay disjoint",
 "For every column, the saved file gives exactly the width, hidden, best-fit and style settings last set for that column, or the loaded ones (with outline level and collapsed state) if it was not set; clearing a column's settings removes them for that column only. Setting or clearing one column inside a loaded multi-column range leaves every other column of that range with its settings. The saved column ranges are valid, pairwise disjoint and in ascending order.",
 ["histories","inputs"],"all sequences of set/clear on any columns, over sheets with no, single or multi-column ranges, with reopens",
 "tests set three columns on one file and check nothing; range splitting needs all relative positions",
 ["ws","mws"],[("range splitting on column update","ws"),("column load and serialisation","ws")],SAVED),
P("P08","A style id stands for exactly the requested formatting",
 "The style id returned for a formatting request resolves, in every file saved afterwards, to exactly that formatting: font name, size, colour, bold, italic, underline, fill colours, each border's line and colour, number format, and alignment and wrapping. Equal requests give the same id within a session and different requests give ids that resolve differently; ids of cells, rows and columns written with a style keep that meaning over save and reopen, and requesting further styles never changes an existing one.",
 ["inputs","histories"],"all formatting requests in any order and number, in new and loaded workbooks, over reopen",
 "tests request five styles and never resolve an id in the file",
 ["sty","msty"],[("style interning","sty"),("style sheet serialisation","sty")],SAVED),
P("P09","Workbook window, active-sheet and hidden-sheet settings persist",
 "The saved workbook shows exactly the last requested visibility, minimised state and sheet-tab, vertical- and horizontal-scroll-bar visibility, keeps every setting that was not changed as loaded, and stays stable over further open/save cycles. The active sheet recorded in the file is the last one requested (or the loaded one), and always refers to an existing sheet. Hiding a sheet hides that sheet and leaves the visibility of all others unchanged.",
 ["histories"],"all sequences of view, active-sheet and hide operations interleaved with sheet adds, renames, deletes and reopens",
 "tests call each setter once and never read the file",
 ["wb","excel"],[("workbook view load and save","wb"),("sheet state list","wb")],SAVED),
P("P10","Every saved package is closed and consistently typed",
 "In every file saved without error, every internal relationship points to a part that exists, relationship ids are unique per source and every id used by the workbook's sheets resolves to a worksheet; every part has exactly one content type, that part kind's proper one; and no part name, default or override is duplicated or refers to a missing part. Every worksheet, shared-string, style, theme and calculation part is still reachable from the package root, and every relationship part belongs to a part that exists, so no deleted sheet is left behind. Parts and relationships a session adds are named the way the document names things, transitional or strict, and never double one the document has.",
 ["histories","inputs"],"all operation histories on blank and loaded packages of any legal layout (absolute or relative targets, any default/override split, transitional or strict names)",
 "tests never open the saved zip; orphaned or missing parts depend on add/delete/rename/reopen history and on the input's layout",
 ["doc","rel","ct","ws","wb"],[("part store and archive writing","doc"),("relationship bookkeeping","rel"),("content type table","ct")],SAVED),
P("P11","What a session does not touch is preserved",
 "Opening any package and saving it, with or without edits elsewhere, keeps every part: parts the library does not interpret are byte-identical, and interpreted parts keep the same elements, attributes, text and namespace meaning everywhere except where an operation of the session changed them. No relationship, content type, sheet feature (merged cells, validations, hyperlinks, drawings, comments, tables, conditional formats, page setup, extensions), defined name or workbook property disappears or changes.",
 ["inputs","histories"],"all legal packages (any features, layout and XML spelling) and all edit histories on other content",
 "tests use one simple fixture and never compare content",
 ["doc","par","wr","tree","ws","wb"],[("part store","doc"),("XML tree read/write","tree")],SAVED),
P("P12","A save is all or nothing for the target file",
 "If saving over an existing file fails or the process dies at any point during the save, the target path still holds the complete previous file or the complete new one, never a partial file and never no file; a save that reports failure leaves the previous target content in place, and a save that reports success leaves the complete new file. No other file of the directory is changed, and no stray file remains after a save that returns.",
 ["crash_points","fault_sequences"],"process death before or inside, and failure of, every file-system call the save makes, for new and existing targets, for all three document kinds",
 "tests never inject a fault or kill a save",
 ["doc","excel","word","ppt"],[("writing of the target file","doc")],"the target directory after each injected crash or fault"),
P("P13","Sheet handles are exclusive, and failed operations change nothing",
 "A sheet can have one open handle at a time, a second request for it fails while the first is open and succeeds once it was closed, and handles of different sheets may be open and used in any interleaving. Everything written through a handle that was closed before saving is in the saved file; a save never silently drops what was written through a handle. An operation that returns an error (unknown sheet, sheet already open, bad argument) leaves the workbook exactly as it was, and no operation panics.",
 ["histories","schedules"],"all interleavings of opening, using and closing handles on any sheets with all other workbook operations",
 "tests use one handle at a time and never provoke an error",
 ["ws","wb","doc","part"],[("open-document bookkeeping","doc"),("sheet part lookup and creation","ws")],SAVED),
P("P14","Deleting a sheet removes that sheet only",
 "Deleting a sheet, whether loaded or added in the session, before or after renames, additions and other deletions, removes exactly that sheet from the list and its part and relationship from the package, and every other sheet keeps its name, content and part. Names and positions freed by a deletion can be used again, and the new sheet starts empty.",
 ["histories"],"all histories mixing delete with add, rename, get, open handles and reopen, on loaded and new sheets",
 "the only test that deletes a sheet fails today and checks nothing in the file",
 ["ws","rel","doc"],[("sheet deletion","ws"),("relationship deletion","rel")],SAVED),
P("P15","Malformed or hostile input gives an error, never a panic or damage",
 "Opening any file - not a zip, truncated, with missing, empty, ill-formed or mistyped parts, or with attributes missing or out of range - and then using the session returns an ordinary success or error: the library never panics, aborts, hangs or overflows the stack. The input file is never modified by opening it, and a file that is accepted and saved again yields a readable package.",
 ["inputs"],"all byte strings as input files, in particular all small structural damages of legal packages",
 "tests only open one intact file",
 ["doc","par","tree","ct","rel","ws","wb","cc","sst","sty"],[("archive and part loading","doc"),("XML parsing","par")],"results of the API calls, the input file's bytes, the saved package"),
P("P16","Word and PowerPoint packages survive open and save",
 "Opening a Word or PowerPoint file and saving it yields a package with the same parts, relationships and content types in which every part except the core properties and the root relationships is byte-identical and the core properties differ at most in the modified time. A new blank Word or PowerPoint session saves a well-formed, closed package.",
 ["inputs","histories"],"all legal docx/pptx packages and any number of open/save cycles",
 "tests save one blank file of each kind and do not inspect it",
 ["word","ppt","doc","core","rel"],[("open/save of Word packages","word"),("open/save of PowerPoint packages","ppt")],SAVED),
P("P17","Saved XML respects the order the file format requires",
 "In every saved workbook, worksheet, style sheet and shared-string part the children of the root, of each row, cell, sheet view and font appear in the order the SpreadsheetML schema requires, each singleton at most once, with rows ascending and unique and cells ascending and unique within a row. This holds whatever combination of features the loaded sheet has and whatever the session added.",
 ["inputs","histories"],"all combinations of schema-legal worksheet/workbook children in loaded files, with all edit histories",
 "tests never validate the output; the order depends on which optional children are present",
 ["order","ws","wb","sty","tree"],[("ordering table","order"),("child insertion","tree")],SAVED),
P("P18","Core properties: creation time kept, modification time updated",
 "Every successful save sets the document's modified time to the time of that save, in UTC W3C format, sets the created time if and only if the document had none, and leaves title, creator and every other core property as it was. A document has exactly one core-properties part after any number of saves.",
 ["histories","inputs"],"all open/save histories over documents with any set of core properties, for all three document kinds",
 "tests never read the properties back",
 ["core"],[("core property update on save","core")],SAVED),
P("P19","The calculation chain names existing formula cells only",
 "If a saved workbook has a calculation chain, every entry names a sheet by an id that exists in the workbook and a cell of that sheet that holds a formula; entries of a loaded chain that still do are kept with all their attributes, and a chain without entries is not left in the package. Deleting sheets, overwriting formula cells or adding sheets never makes the chain refer to something else than before.",
 ["histories","inputs"],"all loaded chains (with and without per-entry sheet ids) and all histories of deletes, overwrites and adds",
 "the fixture has a chain but no test deletes its sheets or overwrites its formulas and looks at the result",
 ["cc","wb","ws"],[("calculation chain load/save","cc"),("sheet id assignment","wb")],SAVED),
P("P20","Shared strings stay aligned with the cells that use them",
 "In every saved file each text cell that refers to the shared-string table refers to an existing entry with that cell's text; loaded entries keep their index and their full content (rich text runs, phonetic data, empty entries), and new text equal to an existing plain entry reuses it. The table is present exactly when it has entries, and its counts are consistent with its content.",
 ["inputs","histories"],"all loaded tables (plain, rich, empty, duplicate entries) and all sequences of text writes on any sheets, with reopens",
 "tests never resolve a shared string; index shifts need particular tables",
 ["sst","ws"],[("shared string table","sst")],SAVED),
P("P21","Sheet views are kept, one per window",
 "A worksheet loaded and saved keeps its sheet views in number, order and content - frozen or split panes, selections, zoom, grid-line, header, zero and right-to-left settings - no matter how often it is opened, edited and saved, and a new sheet has exactly one default view.",
 ["inputs","histories"],"all schema-legal sheet views and any number of open/edit/save cycles",
 "tests never look at views; the damage accumulates over cycles",
 ["ws"],[("sheet view load and save","ws")],SAVED),
P("P22","The declared used range is valid and covers every cell",
 "In every saved worksheet that was opened in the session, the declared dimension is a valid range reference (top-left not after bottom-right, inside the grid) that contains every cell stored in the sheet, for any order and position of writes including the last row and column, rows that only carry settings, and empty sheets.",
 ["inputs","histories"],"all sets and orders of cell and row writes on new and loaded sheets",
 "tests never read the dimension",
 ["ws"],[("dimension tracking","ws")],SAVED),
P("P23","Attribute values and namespaces keep their meaning through the XML layer",
 "For every part the library reads and writes back, each attribute value, namespace binding and text node has the same meaning after saving as before, whether it is encoded in UTF-8 or UTF-16 and whatever names XML allows it uses: entities and character references are neither lost nor escaped twice, declarations on inner elements stay in force where they were and nowhere else, and comments, CDATA sections or character references splitting a text do not change it. Repeating open and save any number of times does not change anything further.",
 ["inputs","histories"],"all legal XML spellings of a part (entities, CDATA, comments, prefixes, nested and default namespace declarations) over repeated open/save",
 "the fixture contains no such spelling; each cycle can escape once more",
 ["par","wr","tree"],[("attribute decoding","par"),("namespace collection","tree"),("attribute escaping","wr")],SAVED),
P("P24","The loaded style sheet keeps its meaning",
 "Opening a workbook, using any operation and saving it leaves the formatting that every existing cell, row, column and named style resolves to unchanged: fonts, fills, borders, number formats, alignment and protection of every loaded style record, differential formats, cell styles and colour tables are kept, and new styles are added after them.",
 ["inputs","histories"],"all legal style sheets and all histories of style requests and edits",
 "the fixture's style sheet is small and no test compares it",
 ["sty"],[("style sheet load","sty"),("style sheet serialisation","sty")],SAVED),
P("P25","Open-and-save reaches a fixed point",
 "Saving an opened workbook, reopening and saving again with the same (or no) operations yields the same package up to modification time: the number of parts, relationships, content types, styles, shared strings, views and column ranges does not grow, and no content drifts from cycle to cycle. Re-requesting a style or re-writing a text already in the file adds nothing.",
 ["histories"],"any package, opened and saved any number of times with idempotent operations in between",
 "tests save each file once",
 ["doc","ws","wb","sty","sst","tree"],[("load/save of each part","doc"),("style interning against loaded styles","sty")],SAVED),
P("P26","Formulas are preserved with all their attributes",
 "A formula in a loaded sheet - normal, shared (master and dependants) or array - keeps its text, its attributes and its cached value in every later save unless that very cell is overwritten; a formula written through the library is stored with exactly the given text next to the given value. Editing other cells never turns a formula cell into a plain value or an empty cell.",
 ["inputs","histories"],"all formula kinds in loaded sheets and all edit histories on other cells",
 "the fixture's formulas are not compared after saving",
 ["ws","mws"],[("formula load and serialisation","ws")],SAVED),
P("P28","Saved elements carry the attributes the format requires, with legal values",
 "Every element the library creates or rewrites in a saved package - sheets, defined names, windows and views, columns, rows, cells, formulas, shared strings, style records, calculation chain entries, content types and relationships - carries all attributes the format requires, none it does not define, and only values of their types (flags, numbers, references, enumerations); it contains only children the format knows. What a loaded file had in this respect is kept. A size that has no legal notation (infinite or not a number) is refused.",
 ["inputs","histories"],"all sequences of edits with any legal argument values, on new and loaded packages",
 "tests never validate the output against the schema; a missing or misspelt attribute shows only with the feature that writes it",
 ["ws","wb","sty","sst","rel","ct"],[("attribute serialisation","ws"),("style serialisation","sty")],SAVED),
P("P27","Sessions on different documents do not influence each other",
 "Any number of document sessions may be open at the same time, in one thread or in several: each behaves as if it were alone, whatever the interleaving of their operations and saves, and repeated runs of the same operations produce the same document content.",
 ["schedules","histories"],"all interleavings of the operations of two or more sessions, and sessions on parallel threads",
 "tests run independent sessions but never compare them with a solo run",
 ["excel","doc","sty"],[("session state","excel")],SAVED),
]
L.sort(key=lambda x: x['id'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
