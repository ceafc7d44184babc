------------------------------ MODULE OxSchema ------------------------------
(***************************************************************************)
(* Attributes the format requires and the values it allows, for the        *)
(* elements the library creates or rewrites.                               *)
(*                                                                         *)
(* A projection lists the distinct shapes of elements (key and names of    *)
(* the attributes) and the distinct values (key, attribute, lexical        *)
(* classes and, for words, the word).  A key is the element with its       *)
(* parent.  Only what the session introduced is judged: shapes and values  *)
(* the opened package already has are its own affair.                      *)
(***************************************************************************)
EXTENDS OxBook

\* value spaces that are lists of words
Words ==
    [state    |-> {"visible", "hidden", "veryHidden"},
     sheetview |-> {"normal", "pageBreakPreview", "pageLayout"},
     celltype |-> {"b", "n", "e", "s", "str", "inlineStr", "d"},
     formula  |-> {"normal", "array", "dataTable", "shared"},
     underline |-> {"single", "double", "singleAccounting", "doubleAccounting", "none"},
     scheme   |-> {"none", "major", "minor"},
     pattern  |-> {"none", "solid", "mediumGray", "darkGray", "lightGray", "darkHorizontal", "darkVertical", "darkDown", "darkUp",
                   "darkGrid", "darkTrellis", "lightHorizontal", "lightVertical", "lightDown", "lightUp", "lightGrid", "lightTrellis",
                   "gray125", "gray0625"},
     line     |-> {"none", "thin", "medium", "dashed", "dotted", "thick", "double", "hair", "mediumDashed", "dashDot",
                   "mediumDashDot", "dashDotDot", "mediumDashDotDot", "slantDashDot"},
     horizontal |-> {"general", "left", "center", "right", "fill", "justify", "centerContinuous", "distributed"},
     vertical |-> {"top", "center", "bottom", "justify", "distributed"},
     mode     |-> {"External", "Internal"},
     pane     |-> {"bottomRight", "topRight", "bottomLeft", "topLeft"}]

\* "flag", "uint", "int", "num", "ref", "cell", "col", "row", "spans", "rgb", "id", "text" (not empty) and "any" are lexical classes
T(req, opt) == [req |-> DOMAIN req, dom |-> req @@ opt]
None == [x \in {} |-> ""]
Flags(ns) == [n \in ns |-> "flag"]
All(ns, d) == [n \in ns |-> d]

Colour == T(None, "rgb" :> "any" @@ "theme" :> "uint" @@ "indexed" :> "uint" @@ "auto" :> "flag" @@ "tint" :> "num")
Line == T(None, "style" :> "line")
Val(d) == T("val" :> d, None)
Toggle == T(None, Flags({"val"}))
Count == T(None, All({"count"}, "uint"))

Schema ==
    \* workbook
    "bookViews/workbookView" :> T(None,
        "visibility" :> "state" @@ Flags({"minimized", "showHorizontalScroll", "showVerticalScroll", "showSheetTabs", "autoFilterDateGrouping"})
        @@ All({"xWindow", "yWindow"}, "int") @@ All({"windowWidth", "windowHeight", "tabRatio", "firstSheet", "activeTab"}, "uint"))
 @@ "sheets/sheet" :> T("name" :> "text" @@ "sheetId" :> "uint" @@ "r:id" :> "text", "state" :> "state")
 @@ "definedNames/definedName" :> T("name" :> "text",
        All({"comment", "customMenu", "description", "help", "statusBar", "shortcutKey"}, "any") @@ All({"localSheetId", "functionGroupId"}, "uint")
        @@ Flags({"hidden", "function", "vbProcedure", "xlm", "publishToServer", "workbookParameter"}))
    \* worksheet
 @@ "worksheet/dimension" :> T("ref" :> "ref", None)
 @@ "sheetViews/sheetView" :> T("workbookViewId" :> "uint",
        Flags({"windowProtection", "showFormulas", "showGridLines", "showRowColHeaders", "showZeros", "rightToLeft", "tabSelected",
               "showRuler", "showOutlineSymbols", "defaultGridColor", "showWhiteSpace"})
        @@ "view" :> "sheetview" @@ "topLeftCell" :> "cell"
        @@ All({"colorId", "zoomScale", "zoomScaleNormal", "zoomScaleSheetLayoutView", "zoomScalePageLayoutView"}, "uint"))
 @@ "cols/col" :> T(All({"min", "max"}, "col"),
        "width" :> "num" @@ All({"style", "outlineLevel"}, "uint") @@ Flags({"hidden", "bestFit", "customWidth", "phonetic", "collapsed"}))
 @@ "sheetData/row" :> T(None,
        "r" :> "row" @@ "spans" :> "spans" @@ All({"s", "outlineLevel"}, "uint") @@ "ht" :> "num"
        @@ Flags({"customFormat", "hidden", "customHeight", "collapsed", "thickTop", "thickBot", "ph"}))
 @@ "row/c" :> T(None, "r" :> "cell" @@ All({"s", "cm", "vm"}, "uint") @@ "t" :> "celltype" @@ Flags({"ph"}))
 @@ "c/f" :> T(None, "t" :> "formula" @@ Flags({"aca", "dt2D", "dtr", "del1", "del2", "ca", "bx"})
        @@ "ref" :> "ref" @@ All({"r1", "r2"}, "cell") @@ "si" :> "uint")
 @@ "c/v" :> T(None, None) @@ "c/is" :> T(None, None)
    \* shared strings
 @@ "/sst" :> T(None, All({"count", "uniqueCount"}, "uint"))
 @@ "sst/si" :> T(None, None) @@ "si/t" :> T(None, None)
    \* styles
 @@ "styleSheet/numFmts" :> Count @@ "styleSheet/fonts" :> Count @@ "styleSheet/fills" :> Count @@ "styleSheet/borders" :> Count
 @@ "styleSheet/cellXfs" :> Count @@ "styleSheet/cellStyleXfs" :> Count @@ "styleSheet/cellStyles" :> Count @@ "styleSheet/dxfs" :> Count
 @@ "numFmts/numFmt" :> T("numFmtId" :> "uint" @@ "formatCode" :> "any", None)
 @@ "font/b" :> Toggle @@ "font/i" :> Toggle @@ "font/strike" :> Toggle @@ "font/outline" :> Toggle @@ "font/shadow" :> Toggle
 @@ "font/condense" :> Toggle @@ "font/extend" :> Toggle
 @@ "font/u" :> T(None, "val" :> "underline") @@ "font/sz" :> Val("num") @@ "font/name" :> Val("any") @@ "font/family" :> Val("uint")
 @@ "font/charset" :> Val("int") @@ "font/scheme" :> Val("scheme") @@ "font/color" :> Colour
 @@ "fill/patternFill" :> T(None, "patternType" :> "pattern") @@ "patternFill/fgColor" :> Colour @@ "patternFill/bgColor" :> Colour
 @@ "borders/border" :> T(None, Flags({"diagonalUp", "diagonalDown", "outline"}))
 @@ "border/left" :> Line @@ "border/right" :> Line @@ "border/top" :> Line @@ "border/bottom" :> Line @@ "border/diagonal" :> Line
 @@ "border/start" :> Line @@ "border/end" :> Line @@ "border/vertical" :> Line @@ "border/horizontal" :> Line
 @@ "left/color" :> Colour @@ "right/color" :> Colour @@ "top/color" :> Colour @@ "bottom/color" :> Colour @@ "diagonal/color" :> Colour
 @@ "cellXfs/xf" :> T(None, All({"numFmtId", "fontId", "fillId", "borderId", "xfId"}, "uint")
        @@ Flags({"quotePrefix", "pivotButton", "applyNumberFormat", "applyFont", "applyFill", "applyBorder", "applyAlignment", "applyProtection"}))
 @@ "cellStyleXfs/xf" :> T(None, All({"numFmtId", "fontId", "fillId", "borderId", "xfId"}, "uint")
        @@ Flags({"quotePrefix", "pivotButton", "applyNumberFormat", "applyFont", "applyFill", "applyBorder", "applyAlignment", "applyProtection"}))
 @@ "xf/alignment" :> T(None, "horizontal" :> "horizontal" @@ "vertical" :> "vertical" @@ All({"textRotation", "indent", "readingOrder"}, "uint")
        @@ "relativeIndent" :> "int" @@ Flags({"wrapText", "justifyLastLine", "shrinkToFit"}))
 @@ "xf/protection" :> T(None, Flags({"locked", "hidden"}))
 @@ "cellStyles/cellStyle" :> T("xfId" :> "uint", "name" :> "any" @@ All({"builtinId", "iLevel"}, "uint") @@ Flags({"hidden", "customBuiltin"}))
    \* calculation chain
 @@ "calcChain/c" :> T("r" :> "cell", "i" :> "int" @@ Flags({"s", "l", "t", "a"}))
    \* the package
 @@ "Types/Default" :> T("Extension" :> "text" @@ "ContentType" :> "text", None)
 @@ "Types/Override" :> T("PartName" :> "text" @@ "ContentType" :> "text", None)
 @@ "Relationships/Relationship" :> T("Id" :> "id" @@ "Type" :> "text" @@ "Target" :> "any", "TargetMode" :> "mode")

\* children an element may have (those the library writes itself)
Children ==
    "row" :> {"c", "extLst"} @@ "c" :> {"f", "v", "is", "extLst"} @@ "sheetData" :> {"row"} @@ "cols" :> {"col"}
 @@ "sheets" :> {"sheet"} @@ "bookViews" :> {"workbookView"} @@ "definedNames" :> {"definedName"}
 @@ "sheetViews" :> {"sheetView", "extLst"} @@ "fonts" :> {"font"} @@ "fills" :> {"fill"} @@ "borders" :> {"border"} @@ "cellXfs" :> {"xf"}
 @@ "cellStyleXfs" :> {"xf"} @@ "numFmts" :> {"numFmt"} @@ "fill" :> {"patternFill", "gradientFill"} @@ "patternFill" :> {"fgColor", "bgColor"}
 @@ "border" :> {"start", "end", "left", "right", "top", "bottom", "diagonal", "vertical", "horizontal"}
 @@ "xf" :> {"alignment", "protection", "extLst"} @@ "calcChain" :> {"c", "extLst"} @@ "Types" :> {"Default", "Override"}
 @@ "font" :> {"b", "i", "strike", "condense", "extend", "outline", "shadow", "u", "vertAlign", "sz", "color", "name", "family", "charset", "scheme"}
 @@ "Relationships" :> {"Relationship"}

----------------------------------------------------------------------------

SeqRange(q) == {q[i] : i \in 1..Len(q)}
Allowed(d, v) == d \in SeqRange(v.c) \/ (d \in DOMAIN Words /\ v.w \in Words[d])

\* findings about one shape of an element
BadShape(e) ==
    LET here == SeqRange(e.n)
    IN (IF e.k \in DOMAIN Schema
        THEN {<<"attribute-missing", e.k, a>> : a \in Schema[e.k].req \ here} \cup {<<"attribute-unknown", e.k, a>> : a \in here \ DOMAIN Schema[e.k].dom}
        ELSE {})
       \cup (IF e.p \in DOMAIN Children /\ e.t \notin Children[e.p] THEN {<<"element-unknown", e.k>>} ELSE {})
BadValue(v) ==
    IF v.k \in DOMAIN Schema /\ v.a \in DOMAIN Schema[v.k].dom /\ ~Allowed(Schema[v.k].dom[v.a], v)
    THEN {<<"attribute-value", v.k, v.a, v.w, v.c>>} ELSE {}

\* what the session introduced into the saved package
Legal(s, q) ==
    UNION {BadShape(e) : e \in SeqRange(q.shapes) \ SeqRange(s.shapes)} \cup UNION {BadValue(v) : v \in SeqRange(q.values) \ SeqRange(s.values)}
=============================================================================
