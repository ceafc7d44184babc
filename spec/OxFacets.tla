------------------------------ MODULE OxFacets ------------------------------
(***************************************************************************)
(* What a saved package must look like, given the package the session      *)
(* opened (s), the model state at the save (m) and the saved package (q).  *)
(*                                                                         *)
(* s and q are projections: plain data read from the files by an           *)
(* independent reader.  Every operator below returns a set of findings,    *)
(* each a tuple <<aspect, where...>>; the empty set means the saved        *)
(* package is the one the specification allows.  Properties select the     *)
(* aspects they are about.                                                 *)
(***************************************************************************)
EXTENDS OxSchema

If(c, l) == IF c THEN {} ELSE {l}
InSeq(x, q) == \E i \in 1..Len(q) : q[i] = x
Range(q) == {q[i] : i \in 1..Len(q)}

----------------------------------------------------------------------------
(* looking things up in a projection *)

NoSheet == [cells |-> EmptyF, rows |-> EmptyF, cols |-> <<>>, badspans |-> <<>>, views |-> <<>>, rest |-> <<>>,
            at |-> "", sdx |-> "", cox |-> "", none |-> TRUE]
SheetOf(p, part) == IF part \in DOMAIN p.sheets THEN p.sheets[part] ELSE NoSheet
IsSheet(x) == "none" \notin DOMAIN x

PartNamed(q, name) ==
    LET hit == {i \in 1..Len(q.wb.sheets) : q.wb.sheets[i].name = name}
    IN IF Cardinality(hit) = 1 THEN q.wb.sheets[CHOOSE i \in hit : TRUE].part ELSE ""

\* the model's sheet records, and for each the loaded and the saved sheet
Sheet(m, k) == m.sheets[IndexOfKey(m, k)]
Loaded(s, m, k) == SheetOf(s, Sheet(m, k).part)
Saved(q, m, k) == SheetOf(q, PartNamed(q, Sheet(m, k).name))
NewSheet(m, k) == Sheet(m, k).part = ""

TextOf(p, c) ==
    IF c.t # "s" THEN c.v
    ELSE IF c.si >= 0 /\ c.si < Len(p.sst.items) THEN p.sst.items[c.si + 1].t ELSE "\\no such string"
RichOf(p, c) ==
    IF c.t # "s" THEN c.ih
    ELSE IF c.si >= 0 /\ c.si < Len(p.sst.items) THEN p.sst.items[c.si + 1].h ELSE ""

----------------------------------------------------------------------------
(* cells *)

TextKinds == {"s", "str", "inlineStr"}

EmptyWrite(w) == ~w.hv /\ ~w.hf /\ w.s = 0

\* a cell the session wrote, against what the file holds
WrittenDiff(w, q, b) ==
    (IF ~w.hv THEN If(b.t # "s" /\ b.v = "", "value")
     ELSE IF w.text THEN
          If(IF w.given = "auto" THEN b.t \in TextKinds ELSE b.t = w.t, "type")
          \cup If(TextOf(q, b) = w.v, "text")
          \cup If(RichOf(q, b) = "", "rich")
     ELSE If(b.t = w.t, "type")
          \cup If(b.v = w.v \/ (b.t = "n" /\ w.num /\ b.nv = w.nv), "value")
          \cup If(w.given = "auto" => b.lx # "bad", "lex"))
    \cup If(b.hf = w.hf /\ b.f = w.f /\ b.fa = "", "formula")
    \cup If(b.s = w.s, "style")

\* a loaded cell nobody wrote
KeptDiff(s, a, q, b) ==
    If(a.t = b.t, "type")
    \cup If(TextOf(s, a) = TextOf(q, b), IF a.t \in TextKinds THEN "text" ELSE "value")
    \cup If(RichOf(s, a) = RichOf(q, b), "rich")
    \cup If(a.hf = b.hf /\ a.f = b.f /\ a.fa = b.fa, "formula")
    \cup If(a.s = b.s, "style")
    \cup If(a.m = b.m, "meta")

CellDiffs(s, m, q, k) ==
    LET old == Loaded(s, m, k).cells
        new == m.over[k].cells
        x == Saved(q, m, k)
        n == Sheet(m, k).name
        do == DOMAIN old
        dn == DOMAIN new
        dx == DOMAIN x.cells
        lost == {<<"cell-lost", n, key>> : key \in {y \in dn : y \notin dx /\ ~EmptyWrite(new[y])}
                                              \cup {y \in do \ dn : y \notin dx}}
        extra == {<<"cell-extra", n, key>> : key \in dx \ (do \cup dn)}
        wr == UNION {{<<"w-" \o d, n, key>> : d \in WrittenDiff(new[key], q, x.cells[key])} :
                        key \in dn \cap dx}
        kp == UNION {{<<"k-" \o d, n, key>> : d \in KeptDiff(s, old[key], q, x.cells[key])} :
                        key \in (do \ dn) \cap dx}
        \* a dependant of a shared formula without a text of its own takes it from the cell of its group that has one
        Master(cells, g) == \E y \in DOMAIN cells : cells[y].fg = g /\ cells[y].f # ""
        orphan == {<<"k-orphan", n, key>> : key \in {y \in (do \ dn) \cap dx :
                                               old[y].fg # "" /\ old[y].f = "" /\ x.cells[y].fg = old[y].fg
                                               /\ Master(old, old[y].fg) /\ ~Master(x.cells, old[y].fg)}}
    IN IF IsSheet(x) THEN lost \cup extra \cup wr \cup kp \cup orphan \cup If(x.badcells = 0 /\ (x.hasref \/ (IsSheet(Loaded(s, m, k)) /\ ~Loaded(s, m, k).hasref)), <<"cell-position", n>>)
       ELSE {<<"sheet-lost", n>>}

AllCells(s, m, q) == UNION {CellDiffs(s, m, q, k) : k \in Keys(m)}

----------------------------------------------------------------------------
(* rows *)

RowNone == [ht |-> "", s |-> 0 - 1, hidden |-> FALSE, tt |-> FALSE, tb |-> FALSE, ol |-> 0, col |-> FALSE,
            ph |-> FALSE, aht |-> "", x |-> ""]
RowOf(sh, key) ==
    IF key \in DOMAIN sh.rows
    THEN LET r == sh.rows[key]
         IN [ht |-> r.ht, s |-> r.s, hidden |-> r.hidden, tt |-> r.tt, tb |-> r.tb, ol |-> r.ol, col |-> r.col,
             ph |-> r.ph, aht |-> r.aht, x |-> r.x]
    ELSE RowNone

RowSetDiff(w, r) ==
    If(r.ht = w.ht, "height") \cup If(r.hidden = w.hidden, "hidden") \cup If(r.tt = w.tt, "thicktop")
    \cup If(r.tb = w.tb, "thickbot") \cup If(r.s = w.s, "style")

RowDiffs(s, m, q, k) ==
    LET old == Loaded(s, m, k)
        set == m.over[k].rows
        x == Saved(q, m, k)
        n == Sheet(m, k).name
    IN UNION {{<<"row-" \o d, n, key>> : d \in RowSetDiff(set[key], RowOf(x, key))} : key \in DOMAIN set}
       \cup {<<"row-kept", n, key>> :
               key \in {y \in (DOMAIN old.rows \cup DOMAIN x.rows) \ DOMAIN set : RowOf(old, y) # RowOf(x, y)}}

AllRows(s, m, q) == UNION {RowDiffs(s, m, q, k) : k \in Keys(m)}

----------------------------------------------------------------------------
(* columns: the settings of a column are those of the range that holds it;  *)
(* they can change only at the ends of ranges, so those are the places to   *)
(* look at                                                                  *)

ColNone == [w |-> "", aw |-> "", hidden |-> FALSE, s |-> 0, bf |-> FALSE, ol |-> 0, col |-> FALSE, ph |-> FALSE, x |-> ""]
ColOf(cols, c) ==
    LET hit == {i \in 1..Len(cols) : cols[i].min <= c /\ c <= cols[i].max}
    IN IF hit = {} THEN ColNone
       ELSE LET y == cols[CHOOSE i \in hit : \A j \in hit : i <= j]
            IN [w |-> y.w, aw |-> y.aw, hidden |-> y.hidden, s |-> y.s, bf |-> y.bf, ol |-> y.ol, col |-> y.col,
                ph |-> y.ph, x |-> y.x]

Ends(cols) == UNION {{cols[i].min, cols[i].max, cols[i].max + 1, cols[i].min - 1} : i \in 1..Len(cols)}

ColDiffs(s, m, q, k) ==
    LET old == Loaded(s, m, k).cols
        set == m.over[k].cols
        new == Saved(q, m, k).cols
        n == Sheet(m, k).name
        pts == {c \in Ends(old) \cup Ends(new) \cup UNION {{c - 1, c, c + 1} : c \in DOMAIN set} : ColOk(c)}
    IN {<<"col-kept", n, c>> : c \in {y \in pts \ DOMAIN set : ColOf(old, y) # ColOf(new, y)}}
       \cup {<<"col-set", n, c>> : c \in {y \in DOMAIN set :
               LET w == set[y]
                   g == ColOf(new, y)
               IN IF w.clear THEN g # ColNone
                  ELSE g.w # w.w \/ g.hidden # w.hidden \/ g.bf # w.bf \/ g.s # w.s}}

ColRanges(q) ==
    UNION {LET c == q.sheets[part].cols
           IN {<<"col-range", part, i>> : i \in {j \in 1..Len(c) :
                 ~(ColOk(c[j].min) /\ ColOk(c[j].max) /\ c[j].min <= c[j].max /\ (j > 1 => c[j - 1].max < c[j].min))}} :
           part \in DOMAIN q.sheets}

\* an element for the ranges without any range is none of the format's
EmptyCols(x) == IsSheet(x) /\ x.cols = <<>> /\ InSeq("cols", x.order)
NoColRange(s, m, q) ==
    {<<"col-no-range", Sheet(m, k).name>> : k \in {y \in Keys(m) : EmptyCols(Saved(q, m, y)) /\ ~EmptyCols(Loaded(s, m, y))}}

AllCols(s, m, q) == UNION {ColDiffs(s, m, q, k) : k \in Keys(m)} \cup ColRanges(q) \cup NoColRange(s, m, q)

----------------------------------------------------------------------------
(* the sheet list *)

SheetList(m, q) ==
    If([i \in 1..Len(q.wb.sheets) |-> q.wb.sheets[i].name] = Names(m), <<"list", q.wb.sheets>>)

\* every sheet of the list has its own worksheet part, and there are no others
\* the hash of no attributes
NoAttributes == "da39a3ee5e6b"
WorksheetCt == "application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"
SheetParts(s, m, q) ==
    LET listed == {q.wb.sheets[i].part : i \in 1..Len(q.wb.sheets)}
        typed == {q.parts[i].n : i \in {j \in 1..Len(q.parts) : q.parts[j].ct = WorksheetCt}}
        linked == {q.rels[i].t : i \in {j \in 1..Len(q.rels) : q.rels[j].src = q.main /\ q.rels[j].ty = "worksheet"}}
    IN If(Cardinality(listed) = Len(q.wb.sheets), <<"shared-part">>)
       \cup If(typed \subseteq listed /\ linked \subseteq listed, <<"left-behind", (typed \cup linked) \ listed>>)
       \cup If(\A k \in Keys(m) : IsSheet(Saved(q, m, k)), <<"no-part">>)
       \cup {<<"moved-part", Sheet(m, k).name>> :
               k \in {y \in Keys(m) : ~NewSheet(m, y) /\ PartNamed(q, Sheet(m, y).name) # Sheet(m, y).part}}
       \cup {<<"deleted-part", p>> :
               p \in {y \in m.gone : y \in listed /\ ~\E k \in Keys(m) : NewSheet(m, k) /\ PartNamed(q, Sheet(m, k).name) = y}}
       \cup {<<"not-empty", Sheet(m, k).name>> :
               k \in {y \in Keys(m) : NewSheet(m, y) /\ (Saved(q, m, y).rest # <<>> \/ Saved(q, m, y).sdx # NoAttributes)}}

----------------------------------------------------------------------------
(* reachability *)

PartNames(p) == {p.parts[i].n : i \in 1..Len(p.parts)}
PartRec(p, n) == p.parts[CHOOSE i \in 1..Len(p.parts) : p.parts[i].n = n]

RECURSIVE Close(_, _, _)
Close(p, seen, avoid) ==
    LET nxt == {p.rels[i].t : i \in {j \in 1..Len(p.rels) :
                  p.rels[j].mode = "Internal" /\ p.rels[j].src \in seen /\ p.rels[j].t \notin avoid}}
    IN IF nxt \subseteq seen THEN seen ELSE Close(p, seen \cup nxt, avoid)
Reach(p, avoid) == Close(p, {""}, avoid)

\* what survives the deletions of the session
Required(s, m) ==
    IF m.gone = {} THEN PartNames(s)
    ELSE LET all == Reach(s, {})
             left == Reach(s, m.gone)
         IN {n \in PartNames(s) :
               LET o == PartRec(s, n)
               IN IF o.ri THEN o.own \notin m.gone /\ (o.own \in left \/ o.own \notin all)
                  ELSE n \notin m.gone /\ (n \in left \/ n \notin all)}

----------------------------------------------------------------------------
(* package closure *)

ProperCt(ty) ==
    CASE ty = "worksheet"           -> {WorksheetCt}
      [] ty = "sharedStrings"       -> {"application/vnd.openxmlformats-officedocument.spreadsheetml.sharedStrings+xml"}
      [] ty = "styles"              -> {"application/vnd.openxmlformats-officedocument.spreadsheetml.styles+xml",
                                        "application/vnd.openxmlformats-officedocument.wordprocessingml.styles+xml"}
      [] ty = "theme"               -> {"application/vnd.openxmlformats-officedocument.theme+xml"}
      [] ty = "calcChain"           -> {"application/vnd.openxmlformats-officedocument.spreadsheetml.calcChain+xml"}
      [] ty = "core-properties"     -> {"application/vnd.openxmlformats-package.core-properties+xml"}
      [] ty = "extended-properties" -> {"application/vnd.openxmlformats-officedocument.extended-properties+xml"}
      [] ty = "officeDocument"      -> {"application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml",
                                        "application/vnd.ms-excel.sheet.macroEnabled.main+xml",
                                        "application/vnd.openxmlformats-officedocument.spreadsheetml.template.main+xml",
                                        "application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml",
                                        "application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"}
      [] OTHER                      -> {}
KindTypes == {"worksheet", "sharedStrings", "styles", "theme", "calcChain", "core-properties", "extended-properties", "officeDocument"}
RelsCt == "application/vnd.openxmlformats-package.relationships+xml"
OwnedCts == UNION {ProperCt(t) : t \in {"worksheet", "sharedStrings", "styles", "theme", "calcChain"}}

\* the type of a relationship in full, by what its target is
FullType(ct) ==
    LET doc == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"
        kind == {t \in KindTypes : ct \in ProperCt(t)}
    IN IF kind = {} THEN ""
       ELSE LET t == CHOOSE x \in kind : TRUE
            IN IF t = "core-properties" THEN "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties" ELSE doc \o t

\* relationships the session made say what their targets are
RelKinds(s, q) ==
    {<<"rel-kind", q.rels[i].t, q.rels[i].type>> :
       i \in {j \in 1..Len(q.rels) :
                /\ q.rels[j].mode = "Internal" /\ q.rels[j].t \in PartNames(q)
                /\ ~\E h \in 1..Len(s.rels) : s.rels[h].src = q.rels[j].src /\ s.rels[h].type = q.rels[j].type /\ s.rels[h].t = q.rels[j].t
                /\ FullType(PartRec(q, q.rels[j].t).ct) \notin {"", q.rels[j].type}}}

\* what the session adds is named the way the document names things, strict or transitional
Conformance(s, q) ==
    LET main(p) == {p.rels[i].cf : i \in {j \in 1..Len(p.rels) : p.rels[j].src = "" /\ p.rels[j].ty = "officeDocument"}}
        way == IF "strict" \in main(s) THEN "strict" ELSE "trans"
    IN {<<"rel-dialect", q.rels[i].src, q.rels[i].type>> :
          i \in {j \in 1..Len(q.rels) :
                   /\ q.rels[j].cf \notin {"", way}
                   /\ ~\E h \in 1..Len(s.rels) : s.rels[h].src = q.rels[j].src /\ s.rels[h].type = q.rels[j].type /\ s.rels[h].t = q.rels[j].t /\ s.rels[h].cf = q.rels[j].cf}}
       \cup {<<"part-dialect", q.parts[i].n, q.parts[i].cf>> :
          i \in {j \in 1..Len(q.parts) :
                   /\ q.parts[j].cf \notin {"", way}
                   /\ ~\E h \in 1..Len(s.parts) : s.parts[h].n = q.parts[j].n /\ s.parts[h].cf = q.parts[j].cf}}

Closed(q) ==
    LET pn == PartNames(q)
        reach == Reach(q, {})
    IN If(q.dup = <<>>, <<"duplicate-part", q.dup>>)
       \cup {<<"dangling", q.rels[i].src, q.rels[i].id, q.rels[i].t>> :
               i \in {j \in 1..Len(q.rels) : q.rels[j].mode = "Internal" /\ q.rels[j].t \notin pn}}
       \cup {<<"twice-rel-id", q.rels[i].src, q.rels[i].id>> :
               i \in {j \in 1..Len(q.rels) : \E h \in 1..(j - 1) : q.rels[h].src = q.rels[j].src /\ q.rels[h].id = q.rels[j].id}}
       \cup {<<"untyped", q.parts[i].n>> : i \in {j \in 1..Len(q.parts) : q.parts[j].ct = ""}}
       \cup {<<"rels-type", q.parts[i].n>> : i \in {j \in 1..Len(q.parts) : q.parts[j].ri /\ q.parts[j].ct # RelsCt}}
       \cup {<<"rels-orphan", q.parts[i].n>> :
               i \in {j \in 1..Len(q.parts) : q.parts[j].ri /\ q.parts[j].own # "" /\ q.parts[j].own \notin pn}}
       \cup {<<"wrong-type", q.rels[i].t>> :
               i \in {j \in 1..Len(q.rels) : q.rels[j].mode = "Internal" /\ q.rels[j].ty \in KindTypes /\ q.rels[j].t \in pn
                        /\ PartRec(q, q.rels[j].t).ct \notin ProperCt(q.rels[j].ty)}}
       \cup {<<"twice-default", q.defaults[i].e>> :
               i \in {j \in 1..Len(q.defaults) : \E h \in 1..(j - 1) : q.defaults[h].e = q.defaults[j].e}}
       \cup {<<"twice-override", q.overrides[i].p>> :
               i \in {j \in 1..Len(q.overrides) : \E h \in 1..(j - 1) : q.overrides[h].p = q.overrides[j].p}}
       \cup {<<"override-of-nothing", q.overrides[i].p>> :
               i \in {j \in 1..Len(q.overrides) : q.overrides[j].p \notin {"/" \o n : n \in pn}}}
       \cup {<<"unreachable", q.parts[i].n>> :
               i \in {j \in 1..Len(q.parts) : q.parts[j].ct \in OwnedCts /\ q.parts[j].n \notin reach}}
       \cup {<<"ill-formed", q.parts[i].n>> : i \in {j \in 1..Len(q.parts) : ~q.parts[j].wf}}

Listed(q) ==
    {<<"sheet-rel", q.wb.sheets[i].name>> :
       i \in {j \in 1..Len(q.wb.sheets) :
                ~\E r \in 1..Len(q.rels) : /\ q.rels[r].src = q.main
                                           /\ q.rels[r].id = q.wb.sheets[j].rid
                                           /\ q.rels[r].ty \in {"worksheet", "chartsheet", "dialogsheet"}
                                           /\ q.rels[r].t \in PartNames(q)}}
    \cup {<<"sheet-twice", q.wb.sheets[i].name>> :
            i \in {j \in 1..Len(q.wb.sheets) : \E h \in 1..(j - 1) :
                     \/ q.wb.sheets[h].id = q.wb.sheets[j].id
                     \/ q.wb.sheets[h].rid = q.wb.sheets[j].rid
                     \/ q.wb.sheets[h].part = q.wb.sheets[j].part}}
    \cup {<<"sheet-id", q.wb.sheets[i].name>> : i \in {j \in 1..Len(q.wb.sheets) : q.wb.sheets[j].id = ""}}

----------------------------------------------------------------------------
(* what a session does not touch *)

\* the parts the session may have to rewrite
Interpreted(s, m) ==
    {s.main, s.core.part, s.sst.part} \cup {PartRec(s, n).n : n \in {x \in PartNames(s) : PartRec(s, x).ri}}
    \cup {s.rels[i].t : i \in {j \in 1..Len(s.rels) : s.rels[j].src = s.main
                                /\ s.rels[j].ty \in {"worksheet", "sharedStrings", "styles", "calcChain", "theme"}}}

MainTypes == {"worksheet", "theme"}
OpenedParts(m) == {Sheet(m, k).part : k \in m.opened}

Parts(s, m, q) ==
    LET req == Required(s, m)
        int == Interpreted(s, m)
        calc == {s.rels[i].t : i \in {j \in 1..Len(s.rels) : s.rels[j].src = s.main /\ s.rels[j].ty = "calcChain"}}
        maygo == IF q.calc.present THEN {} ELSE calc
        sst == {s.sst.part}
    IN {<<"part-lost", n>> : n \in {x \in req : x \notin PartNames(q) /\ x \notin maygo
                                      /\ ~(x \in sst /\ s.sst.items = <<>>)
                                      /\ ~(PartRec(s, x).ri /\ (PartRec(s, x).own \in maygo))}}
       \cup {<<"part-bytes", n>> : n \in {x \in (req \ int) \cap PartNames(q) : PartRec(s, x).b # PartRec(q, x).b}}
       \cup {<<"part-type", n>> : n \in {x \in req \cap PartNames(q) : PartRec(s, x).ct # PartRec(q, x).ct}}
       \cup {<<"part-xml", n>> :
               n \in {x \in req \cap PartNames(q) :
                        /\ x \notin OpenedParts(m)
                        /\ \E j \in 1..Len(s.rels) : s.rels[j].src = s.main /\ s.rels[j].ty \in MainTypes /\ s.rels[j].t = x
                        /\ PartRec(s, x).h # PartRec(q, x).h}}

Rels(s, m, q) ==
    LET req == Required(s, m)
        qs == {[src |-> q.rels[i].src, id |-> q.rels[i].id, type |-> q.rels[i].type, t |-> q.rels[i].t, mode |-> q.rels[i].mode] :
                  i \in 1..Len(q.rels)}
    IN {<<"rel-lost", s.rels[i].src, s.rels[i].id, s.rels[i].t>> :
          i \in {j \in 1..Len(s.rels) :
                   /\ s.rels[j].src = "" \/ s.rels[j].src \in req
                   /\ ~(s.rels[j].mode = "Internal" /\ s.rels[j].t \in m.gone)
                   /\ ~(s.rels[j].src = s.main /\ s.rels[j].ty = "calcChain" /\ ~q.calc.present)
                   /\ [src |-> s.rels[j].src, id |-> s.rels[j].id, type |-> s.rels[j].type, t |-> s.rels[j].t, mode |-> s.rels[j].mode] \notin qs}}

\* the structure of a sheet outside of cells, rows, columns and views
SheetRest(s, m, q) ==
    UNION {LET a == Loaded(s, m, k)
               b == Saved(q, m, k)
               n == Sheet(m, k).name
           IN IF ~IsSheet(a) \/ ~IsSheet(b) THEN {}
              ELSE If(a.rest = b.rest, <<"sheet-features", n, a.rest, b.rest>>)
                   \cup If(a.at = b.at /\ a.sdx = b.sdx, <<"sheet-attributes", n>>)
                   \cup If(a.cox = b.cox \/ b.cols = <<>>, <<"cols-attributes", n>>) : k \in Keys(m)}

DefinedNames(s, m, q) ==
    LET keep(d) == d.local < 0 \/ (d.local + 1) \in Keys(m)
        at(d) == [d EXCEPT !.local = IF @ < 0 THEN @ ELSE IndexOfKey(m, @ + 1) - 1]
        want == [i \in 1..Len(SelectSeq(s.wb.dn, keep)) |-> at(SelectSeq(s.wb.dn, keep)[i])]
    IN If(want = q.wb.dn, <<"defined-names", want, q.wb.dn>>)

Book(s, m, q) ==
    IF ~s.wb.present THEN {}
    ELSE If(s.wb.rest = q.wb.rest, <<"workbook-content", s.wb.rest, q.wb.rest>>)
         \cup If(s.wb.at = q.wb.at, <<"workbook-attributes">>)
         \cup DefinedNames(s, m, q)
         \cup {<<"sheet-id-changed", Sheet(m, k).name>> :
                 k \in {y \in Keys(m) : ~NewSheet(m, y) /\
                          ~\E i \in 1..Len(q.wb.sheets) : q.wb.sheets[i].name = Sheet(m, y).name /\ q.wb.sheets[i].id = s.wb.sheets[y].id}}

----------------------------------------------------------------------------
(* workbook view *)

ViewOf(s, m) ==
    LET v == s.wb.view
        g(k, d) == IF k \in DOMAIN m.view THEN m.view[k] ELSE d
    IN [vis |-> IF "visible" \in DOMAIN m.view THEN (IF m.view["visible"] THEN "visible" ELSE "hidden") ELSE v.vis,
        min |-> g("minimize", v.min),
        tabs |-> IF "tabs" \in DOMAIN m.view THEN ~m.view["tabs"] ELSE v.tabs,
        vs |-> IF "vscroll" \in DOMAIN m.view THEN ~m.view["vscroll"] ELSE v.vs,
        hs |-> IF "hscroll" \in DOMAIN m.view THEN ~m.view["hscroll"] ELSE v.hs]

\* key of the sheet that must be active, 0 if any will do
ActiveKey(s, m) ==
    IF m.act # 0 THEN m.act
    ELSE IF m.actgone THEN 0
    ELSE IF s.wb.present /\ (s.wb.view.active + 1) \in Keys(m) THEN s.wb.view.active + 1
    ELSE IF s.wb.present THEN 0
    ELSE IF 1 \in Keys(m) THEN 1 ELSE 0

\* the windows after the first one are kept; the sheets they show are found again after a delete
MoreViews(s, m, q) ==
    LET a == s.wb.view.more
        b == q.wb.view.more
        n == Len(q.wb.sheets)
        Follows(x, y) == IF (x + 1) \in Keys(m) THEN y = IndexOfKey(m, x + 1) - 1
                         ELSE (y >= 0 /\ y < n) \/ y = 0
    IN If(Len(a) = Len(b)
          /\ (\A j \in 1..Len(a) : a[j].x = b[j].x /\ a[j].xk = b[j].xk
                /\ (IF m.dels = 0 THEN a[j].active = b[j].active /\ a[j].first = b[j].first
                    ELSE Follows(a[j].active, b[j].active) /\ Follows(a[j].first, b[j].first))), <<"more-views">>)

View(s, m, q) ==
    LET v == q.wb.view
        w == ViewOf(s, m)
        a == ActiveKey(s, m)
    IN If(v.vis = w.vis, <<"visibility", v.vis>>) \cup If(v.min = w.min, <<"minimized">>)
       \cup If(v.tabs = w.tabs, <<"tabs">>) \cup If(v.vs = w.vs, <<"vertical-scroll">>) \cup If(v.hs = w.hs, <<"horizontal-scroll">>)
       \cup If(a # 0 => v.active = IndexOfKey(m, a) - 1, <<"active", v.active>>)
       \cup If(Len(q.wb.sheets) > 0 => v.active >= 0 /\ v.active < Len(q.wb.sheets), <<"active-range", v.active>>)
       \cup If((v.first >= 0 /\ v.first < Len(q.wb.sheets)) \/ v.first = 0, <<"first-range", v.first>>)
       \cup (IF ~s.wb.present THEN {}
             ELSE If(v.ratio = s.wb.view.ratio /\ v.afd = s.wb.view.afd /\ v.x = s.wb.view.x /\ v.xk = s.wb.view.xk, <<"view-other">>)
                  \cup MoreViews(s, m, q)
                  \cup If(m.dels = 0 => v.first = s.wb.view.first, <<"first">>))

States(m, q) ==
    {<<"state", q.wb.sheets[i].name, q.wb.sheets[i].state>> :
       i \in {j \in 1..Len(q.wb.sheets) :
                q.wb.sheets[j].name \in NameSet(m) /\
                LET w == m.sheets[IndexOf(m, q.wb.sheets[j].name)].state
                IN q.wb.sheets[j].state # w /\ ~(w = "nonvisible" /\ q.wb.sheets[j].state # "visible")}}

----------------------------------------------------------------------------
(* sheet views, dimension *)

DefaultViews == {<<>>} \cup {<<[at |-> a, kids |-> <<>>]>> : a \in {"workbookViewId=0", "tabSelected=True;workbookViewId=0"}}

Views(s, m, q) ==
    {<<"views", Sheet(m, k).name>> :
       k \in {y \in Keys(m) :
                LET b == Saved(q, m, y).views
                    a == Loaded(s, m, y).views
                IN IF NewSheet(m, y) THEN ~(b \in DefaultViews /\ Len(b) = 1)
                   ELSE ~(b = a \/ (a = <<>> /\ b \in DefaultViews))}}

Dimension(m, q) ==
    {<<"dimension", Sheet(m, k).name, Saved(q, m, k).dim>> :
       k \in {y \in Keys(m) :
                /\ y \in m.opened \/ NewSheet(m, y)
                /\ LET x == Saved(q, m, y)
                       d == x.dim
                   IN IsSheet(x) =>
                      ~(/\ d.n = 1 /\ d.ok
                        /\ \A c \in DOMAIN x.cells : /\ d.r1 <= x.cells[c].r /\ x.cells[c].r <= d.r2
                                                    /\ d.c1 <= x.cells[c].c /\ x.cells[c].c <= d.c2)}}

\* what a row declares to span holds its cells, if it did when it was loaded
Spans(s, m, q) ==
    {<<"row-spans", Sheet(m, k).name>> :
       k \in {y \in Keys(m) : ~(Range(Saved(q, m, y).badspans) \subseteq Range(Loaded(s, m, y).badspans))}}

----------------------------------------------------------------------------
(* style sheet *)

StyleIds(s, m, q) ==
    LET loaded == IF s.sty.present THEN Len(s.sty.xfs) ELSE 0
    IN {<<"style-meaning", x.id>> : x \in {y \in m.reqs : ~StandsFor(q.sty, y.id, y.req)}}
       \cup {<<"style-extra", x.id>> : x \in {y \in m.reqs : ~Neutral(q.sty, y.id)}}
       \cup {<<"style-off", x.id>> : x \in {y \in m.reqs : ~InEffect(q.sty, y.id, loaded)}}

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* the number format codes alone
StyleCodes(m, q) ==
    {<<"format-code", x.id>> : x \in {y \in m.reqs :
        LET g == Stored(q.sty, y.id)
        IN "missing" \in DOMAIN g \/ ~NumMatches(q.sty, g.num, Requested(y.req).num)}}

LoadedStyles(s, q) ==
    IF ~s.sty.present THEN {}
    ELSE {<<"style-changed", i - 1>> : i \in {j \in 1..Len(s.sty.xfs) : Resolve(s.sty, j - 1) # Resolve(q.sty, j - 1)}}
         \cup If(Prefix(s.sty.fonts, q.sty.fonts), <<"fonts">>) \cup If(Prefix(s.sty.fills, q.sty.fills), <<"fills">>)
         \cup If(Prefix(s.sty.borders, q.sty.borders), <<"borders">>) \cup If(Prefix(s.sty.csx, q.sty.csx), <<"cell-style-formats">>)
         \cup If(Prefix(s.sty.xfs, q.sty.xfs), <<"formats">>)
         \cup If(Range(s.sty.numFmts) \subseteq Range(q.sty.numFmts), <<"number-formats">>)
         \cup If(\A i \in 1..Len(s.sty.rest) : InSeq(s.sty.rest[i], q.sty.rest), <<"style-rest", s.sty.rest, q.sty.rest>>)
         \cup If(s.sty.at = q.sty.at, <<"style-attributes">>)

StyleSheet(q) ==
    If(q.sty.counts, <<"style-counts">>)
    \cup {<<"numfmt-twice", q.sty.numFmts[i].id>> :
            i \in {j \in 1..Len(q.sty.numFmts) : \E h \in 1..(j - 1) : q.sty.numFmts[h].id = q.sty.numFmts[j].id}}

\* every style a cell, row or column names exists
StylesExist(q) ==
    LET n == IF q.sty.present THEN Len(q.sty.xfs) ELSE 1
    IN UNION {{<<"style-unknown", p, c>> : c \in {x \in DOMAIN q.sheets[p].cells : q.sheets[p].cells[x].s < 0 \/ q.sheets[p].cells[x].s >= n}}
              \cup {<<"style-unknown", p, r>> : r \in {x \in DOMAIN q.sheets[p].rows : q.sheets[p].rows[x].s >= n}}
              \cup {<<"style-unknown", p, i>> : i \in {x \in 1..Len(q.sheets[p].cols) : q.sheets[p].cols[x].s >= n}} :
              p \in DOMAIN q.sheets}

----------------------------------------------------------------------------
(* shared strings *)

Strings(s, m, q) ==
    LET a == s.sst.items
        b == q.sst.items
        n == Len(a)
    IN UNION {{<<"string-ref", p, c>> :
                      c \in {x \in DOMAIN q.sheets[p].cells :
                               q.sheets[p].cells[x].t = "s" /\ ~(q.sheets[p].cells[x].si >= 0 /\ q.sheets[p].cells[x].si < Len(b))}} :
                   p \in DOMAIN q.sheets}
       \cup If(Prefix(a, b), <<"strings-kept">>)
       \cup {<<"string-twice", i>> :
               i \in {j \in (n + 1)..Len(b) : b[j].plain /\ \E h \in 1..(j - 1) : b[h].plain /\ b[h].t = b[j].t}}
       \cup If(q.sst.present <=> b # <<>>, <<"table-present">>)
       \cup If(q.sst.unique \in {0 - 1, Len(b)}, <<"unique-count", q.sst.unique>>)
       \cup If(q.sst.count = 0 - 1 \/ q.sst.count >= Len(b), <<"count", q.sst.count>>)

----------------------------------------------------------------------------
(* calculation chain *)

ChainSheet(p, id) ==
    LET hit == {i \in 1..Len(p.wb.sheets) : p.wb.sheets[i].id = id}
    IN IF hit = {} THEN 0 ELSE CHOOSE i \in hit : \A j \in hit : i <= j
HasFormula(p, e) ==
    LET i == ChainSheet(p, e.i)
    IN i # 0 /\ LET sh == SheetOf(p, p.wb.sheets[i].part)
                    key == CellKey(e.r, e.c)
                IN key \in DOMAIN sh.cells /\ sh.cells[key].hf

Chain(s, m, q) ==
    LET still(e) == ChainSheet(s, e.i) \in Keys(m) /\ HasFormula(q, e)
        same(x, y) == x.r = y.r /\ x.c = y.c /\ x.i = y.i
        loaded(e) == \E i \in 1..Len(s.calc.items) : same(s.calc.items[i], e)
        want == SelectSeq(s.calc.items, still)
        got == SelectSeq(q.calc.items, loaded)
    IN {<<"chain-entry", q.calc.items[i]>> : i \in {j \in 1..Len(q.calc.items) : ~HasFormula(q, q.calc.items[j])}}
       \cup If(want = got, <<"chain-kept", want, got>>)
       \cup If(q.calc.present <=> q.calc.items # <<>>, <<"chain-present">>)
       \cup If(want # <<>> => q.calc.present, <<"chain-lost">>)

----------------------------------------------------------------------------
(* core properties: t0 and t1 are the seconds before and after the save *)

Core(s, q, t0, t1) ==
    LET c == q.core
    IN If(c.n = 1 /\ c.nmod = 1 /\ c.ncre = 1 /\ c.part # "", <<"core-count", c>>)
       \cup If(c.msec >= t0 /\ c.msec <= t1, <<"modified", c.modified>>)
       \cup If(c.typed, <<"core-typed">>)
       \cup (IF s.core.created # "" THEN If(c.created = s.core.created, <<"created-changed", c.created>>)
             ELSE If(c.csec >= t0 /\ c.csec <= t1, <<"created", c.created>>))
       \cup (IF s.core.n = 0 THEN {} ELSE If(c.rest = s.core.rest /\ c.part = s.core.part, <<"core-rest">>))

----------------------------------------------------------------------------
(* Word and PowerPoint packages: nothing changes but the core properties *)

Office(s, q, t0, t1) ==
    LET mine == {s.core.part, "_rels/.rels"}
        added == IF s.ok /\ s.core.n > 0 THEN {} ELSE {q.core.part, "_rels/.rels"}
        rel(p) == {[src |-> p.rels[i].src, id |-> p.rels[i].id, type |-> p.rels[i].type, t |-> p.rels[i].t, mode |-> p.rels[i].mode] :
                     i \in 1..Len(p.rels)}
        new == rel(q) \ rel(s)
    IN {<<"part-lost", n>> : n \in PartNames(s) \ PartNames(q)}
       \cup {<<"part-extra", n>> : n \in PartNames(q) \ (PartNames(s) \cup added)}
       \cup {<<"part-bytes", n>> : n \in {x \in (PartNames(s) \cap PartNames(q)) \ mine : PartRec(s, x).b # PartRec(q, x).b}}
       \cup {<<"part-type", n>> : n \in {x \in PartNames(s) \cap PartNames(q) : PartRec(s, x).ct # PartRec(q, x).ct}}
       \cup {<<"rel-lost", r>> : r \in rel(s) \ rel(q)}
       \cup {<<"rel-extra", r>> : r \in {x \in new : ~(added # {} /\ x.src = "" /\ x.t = q.core.part /\ Cardinality(new) = 1)}}
       \cup Closed(q) \cup Core(s, q, t0, t1)

----------------------------------------------------------------------------
(* element order *)

WorksheetOrder == <<"sheetPr", "dimension", "sheetViews", "sheetFormatPr", "cols", "sheetData", "sheetCalcPr", "sheetProtection",
    "protectedRanges", "scenarios", "autoFilter", "sortState", "dataConsolidate", "customSheetViews", "mergeCells", "phoneticPr",
    "conditionalFormatting", "dataValidations", "hyperlinks", "printOptions", "pageMargins", "pageSetup", "headerFooter",
    "rowBreaks", "colBreaks", "customProperties", "cellWatches", "ignoredErrors", "smartTags", "drawing", "legacyDrawing",
    "legacyDrawingHF", "drawingHF", "picture", "oleObjects", "controls", "webPublishItems", "tableParts", "extLst">>
WorkbookOrder == <<"fileVersion", "fileSharing", "workbookPr", "workbookProtection", "bookViews", "sheets", "functionGroups",
    "externalReferences", "definedNames", "calcPr", "oleSize", "customWorkbookViews", "pivotCaches", "smartTagPr", "smartTagTypes",
    "webPublishing", "fileRecoveryPr", "webPublishObjects", "extLst">>
StyleOrder == <<"numFmts", "fonts", "fills", "borders", "cellStyleXfs", "cellXfs", "cellStyles", "dxfs", "tableStyles", "colors", "extLst">>
FontOrder == <<"b", "i", "strike", "condense", "extend", "outline", "shadow", "u", "vertAlign", "sz", "color", "name", "family", "charset", "scheme">>

Pos(order, tag) == LET hit == {i \in 1..Len(order) : order[i] = tag} IN IF hit = {} THEN 0 ELSE CHOOSE i \in hit : TRUE
InOrder(tags, order, many) ==
    LET known == SelectSeq([i \in 1..Len(tags) |-> Pos(order, tags[i])], LAMBDA x : x # 0)
    IN \A i \in 1..(Len(known) - 1) : known[i] < known[i + 1] \/ (known[i] = known[i + 1] /\ order[known[i]] \in many)

Order(s, q) ==
    If(q.wb.present => InOrder(q.wb.order, WorkbookOrder, {"fileRecoveryPr"}), <<"workbook-order", q.wb.order>>)
    \cup If(InOrder(q.sty.order, StyleOrder, {}), <<"styles-order", q.sty.order>>)
    \cup {<<"font-order", i>> : i \in {j \in (Len(s.sty.fontorder) + 1)..Len(q.sty.fontorder) : ~InOrder(q.sty.fontorder[j], FontOrder, {})}}
    \cup If(q.sst.order, <<"strings-order">>)
    \cup UNION {LET x == q.sheets[p]
                IN If(InOrder(x.order, WorksheetOrder, {"conditionalFormatting"}), <<"worksheet-order", p, x.order>>)
                   \cup If(x.roworder, <<"row-order", p>>) \cup If(x.cellorder, <<"cell-order", p>>)
                   \cup If(x.kidorder, <<"cell-children", p>>) \cup If(x.vorder, <<"view-order", p>>) : p \in DOMAIN q.sheets}

----------------------------------------------------------------------------
(* two packages that are the same but for the time of modification *)

Same(a, b) ==
    LET parts(p) == {[n |-> p.parts[i].n, ct |-> p.parts[i].ct, h |-> IF p.parts[i].n = p.core.part \/ p.parts[i].ri THEN "" ELSE p.parts[i].h] : i \in 1..Len(p.parts)}
        rels(p) == {[src |-> p.rels[i].src, id |-> p.rels[i].id, type |-> p.rels[i].type, t |-> p.rels[i].t, mode |-> p.rels[i].mode] : i \in 1..Len(p.rels)}
    IN If(PartNames(a) = PartNames(b), <<"drift-parts", PartNames(b) \ PartNames(a)>>)
       \cup If(parts(a) = parts(b), <<"drift-content", {x.n : x \in parts(b) \ parts(a)}>>)
       \cup If(rels(a) = rels(b) /\ Len(a.rels) = Len(b.rels), <<"drift-rels">>)
       \cup If(Range(a.overrides) = Range(b.overrides) /\ Len(a.overrides) = Len(b.overrides), <<"drift-overrides">>)
       \cup If(Range(a.defaults) = Range(b.defaults) /\ Len(a.defaults) = Len(b.defaults), <<"drift-defaults">>)
       \cup If(a.wb.sheets = b.wb.sheets /\ a.wb.view = b.wb.view, <<"drift-workbook">>)
       \cup If(a.core.rest = b.core.rest /\ a.core.created = b.core.created, <<"drift-core">>)
       \cup If(a.sst = b.sst, <<"drift-strings">>)
       \cup If(a.sty = b.sty, <<"drift-styles">>)
=============================================================================
