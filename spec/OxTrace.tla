------------------------------- MODULE OxTrace ------------------------------
(***************************************************************************)
(* Trace validation: is a recorded run of the real library a behaviour of  *)
(* the specification?                                                      *)
(*                                                                         *)
(* The trace is a list of events: packages (projections), begins of        *)
(* scripts, operations with the response the caller saw, and saves with    *)
(* the projection of the file.  One step of this specification consumes    *)
(* one event: it computes the response and next state the specification    *)
(* gives (OxBook!Apply), and, at a save, the findings of the properties    *)
(* (OxFacets).  PROP chooses the property; findings are printed.           *)
(***************************************************************************)
EXTENDS OxFacets, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.OX_TRACE)
PROP == IOEnv.OX_PROP

VARIABLES i,      \* next event
          m,      \* model of the session
          ses,    \* the script so far: log of the previous session, what was saved
          dead    \* the rest of this script has no meaning

vars == <<i, m, ses, dead>>

NoSession == [plog |-> <<>>, pfail |-> TRUE, saved |-> 0, lax |-> FALSE, scr |-> 0]

Report(e, d) == PrintT(<<"VIOL", e.sid, e.i, d>>)

----------------------------------------------------------------------------
(* which operations a property speaks about *)

Handles == {"add", "get", "close", "delete"}
Concern(op) ==
    CASE op \in {"add", "get"} -> {"P01", "P02", "P03", "P11", "P13", "P14", "P17", "P21", "P23", "P26"}
      [] op = "close"  -> {"P13"}
      [] op = "delete" -> {"P01", "P13", "P14"}
      [] op = "rename" -> {"P01", "P13", "P14"}
      [] op = "list"   -> {"P01", "P13", "P14", "P25"}
      [] op = "cells"  -> {"P02", "P03", "P04", "P05", "P13", "P20", "P26"}
      [] op = "row"    -> {"P06", "P05", "P13", "P28"}
      [] op = "col"    -> {"P07", "P05", "P13", "P28"}
      [] op = "style"  -> {"P08", "P13", "P24"}
      [] op \in {"view", "active", "hide"} -> {"P09", "P13"}
      [] OTHER -> {}

\* an unexpected answer of an operation that every property needs
Always == {"new", "save"}

----------------------------------------------------------------------------
(* findings at a save *)

Aspect(ds, as) == {d \in ds : d[1] \in as}

CellLoss == {"cell-lost", "sheet-lost"}

FindingsOf(p, s, mm, q, e) ==
    IF mm.office # "" /\ p \notin {"P10", "P11", "P16", "P18", "P23", "P28"} THEN {}
    ELSE IF mm.office # "" /\ p \in {"P11", "P23"} THEN Office(s, q, e.t0, e.t1)
    ELSE CASE p = "P01" -> SheetList(mm, q)
      [] p = "P02" -> AllCells(s, mm, q) \cup AllRows(s, mm, q) \cup AllCols(s, mm, q)
      [] p = "P03" -> Aspect(AllCells(s, mm, q), {"w-text", "k-text", "w-formula", "k-formula", "k-rich", "w-rich", "sheet-lost", "cell-lost"})
                         \cup SheetList(mm, q) \cup StyleCodes(mm, q)
                         \cup If(\A j \in 1..Len(q.parts) : q.parts[j].wf, <<"ill-formed">>)
      [] p = "P04" -> Aspect(AllCells(s, mm, q), {"w-type", "w-value", "w-text", "w-lex", "cell-lost", "sheet-lost"})
      [] p = "P05" -> AllCells(s, mm, q) \cup AllRows(s, mm, q) \cup AllCols(s, mm, q)
      [] p = "P06" -> AllRows(s, mm, q) \cup Aspect(AllCells(s, mm, q), CellLoss \cup {"cell-extra", "w-value", "w-text", "k-text", "k-value", "k-style", "w-style"})
      [] p = "P07" -> AllCols(s, mm, q)
      [] p = "P08" -> StyleIds(s, mm, q) \cup LoadedStyles(s, q) \cup StylesExist(q) \cup StyleSheet(q)
                         \cup Aspect(AllCells(s, mm, q), {"w-style", "k-style"} \cup CellLoss)
                         \cup Aspect(AllRows(s, mm, q), {"row-style", "row-kept"}) \cup AllCols(s, mm, q)
      [] p = "P09" -> View(s, mm, q) \cup States(mm, q)
      [] p = "P10" -> Closed(q) \cup Listed(q) \cup RelKinds(s, q) \cup Conformance(s, q)
      [] p = "P11" -> Parts(s, mm, q) \cup Rels(s, mm, q) \cup SheetRest(s, mm, q) \cup Book(s, mm, q)
                         \cup AllCells(s, mm, q) \cup AllRows(s, mm, q) \cup AllCols(s, mm, q) \cup Views(s, mm, q)
                         \cup LoadedStyles(s, q) \cup If(Prefix(s.sst.items, q.sst.items), <<"strings-kept">>)
                         \cup (IF s.wb.present THEN View(s, mm, q) \cup States(mm, q) ELSE {})
      [] p = "P13" -> SheetList(mm, q) \cup AllCells(s, mm, q) \cup AllRows(s, mm, q) \cup AllCols(s, mm, q)
                         \cup View(s, mm, q) \cup States(mm, q) \cup StyleIds(s, mm, q) \cup Closed(q)
      [] p = "P14" -> SheetList(mm, q) \cup SheetParts(s, mm, q) \cup Listed(q) \cup AllCells(s, mm, q)
                         \cup AllRows(s, mm, q) \cup AllCols(s, mm, q) \cup SheetRest(s, mm, q) \cup Parts(s, mm, q) \cup Rels(s, mm, q)
                         \cup Aspect(Closed(q), {"dangling", "unreachable", "rels-orphan", "override-of-nothing", "duplicate-part"})
      [] p = "P15" -> If(q.ok, <<"unreadable", q.err>>)
      [] p = "P16" -> IF mm.office = "" THEN {} ELSE Office(s, q, e.t0, e.t1) \cup RelKinds(s, q) \cup Conformance(s, q)
      [] p = "P17" -> Order(s, q)
      [] p = "P18" -> Core(s, q, e.t0, e.t1)
      [] p = "P19" -> Chain(s, mm, q)
      [] p = "P20" -> Strings(s, mm, q) \cup Aspect(AllCells(s, mm, q), {"w-text", "k-text", "k-rich", "w-rich"} \cup CellLoss)
      [] p = "P21" -> Views(s, mm, q) \cup (IF s.wb.present THEN Aspect(View(s, mm, q), {"more-views"}) ELSE {})
      [] p = "P22" -> Dimension(mm, q) \cup Spans(s, mm, q)
      [] p = "P23" -> Aspect(Closed(q), {"ill-formed"}) \cup Aspect(Conformance(s, q), {"part-dialect"}) \cup Parts(s, mm, q) \cup Rels(s, mm, q) \cup SheetRest(s, mm, q)
                         \cup Book(s, mm, q) \cup AllCells(s, mm, q) \cup AllRows(s, mm, q) \cup AllCols(s, mm, q)
                         \cup Views(s, mm, q) \cup LoadedStyles(s, q) \cup If(Prefix(s.sst.items, q.sst.items), <<"strings-kept">>)
                         \cup SheetList(mm, q)
      [] p = "P24" -> LoadedStyles(s, q) \cup StylesExist(q) \cup StyleSheet(q) \cup Aspect(AllCells(s, mm, q), {"k-style", "cell-lost"})
                         \cup Aspect(AllRows(s, mm, q), {"row-kept"}) \cup Aspect(AllCols(s, mm, q), {"col-kept"})
      [] p = "P26" -> Aspect(AllCells(s, mm, q), {"w-formula", "k-formula", "k-meta", "k-orphan"} \cup CellLoss)
                         \cup {d \in AllCells(s, mm, q) : d[1] \in {"k-type", "k-value", "k-text", "w-value", "w-text", "w-type"}}
      [] p = "P28" -> Legal(s, q)
      [] p = "P25" -> AllCells(s, mm, q) \cup AllRows(s, mm, q) \cup AllCols(s, mm, q) \cup Views(s, mm, q) \cup LoadedStyles(s, q)
                         \cup If(Prefix(s.sst.items, q.sst.items), <<"strings-kept">>)
      [] OTHER -> {}

\* "ALL" decides every property at once (used while developing)
AllProps == {"P01", "P02", "P03", "P06", "P07", "P08", "P09", "P10", "P11", "P13", "P14", "P16", "P17", "P18", "P19", "P20", "P21", "P22",
             "P23", "P24", "P26", "P28"}
Findings(s, mm, q, e) ==
    IF PROP = "ALL" THEN UNION {FindingsOf(p, s, mm, q, e) : p \in AllProps}
    ELSE FindingsOf(PROP, s, mm, q, e)
Is(ps) == PROP = "ALL" \/ PROP \in ps

\* the same session on the package the previous one saved
\* (operations that were refused changed nothing and do not count)
Repeated(e) == ses.saved # 0 /\ m.src = ses.saved /\ m.dels = 0 /\ ~m.dirty
               /\ (m.log = <<>> \/ (m.log = ses.plog /\ ~ses.pfail))

\* what two runs of the same operations have in common
Twin(a, b) ==
    LET parts(p) == {[n |-> p.parts[j].n, ct |-> p.parts[j].ct] : j \in 1..Len(p.parts)}
    IN If(parts(a) = parts(b), <<"twin-parts">>) \cup If(a.wb = b.wb, <<"twin-workbook">>) \cup If(a.sheets = b.sheets, <<"twin-sheets">>)
       \cup If(a.sst = b.sst, <<"twin-strings">>) \cup If(a.sty = b.sty, <<"twin-styles">>)
       \cup If(Range(a.rels) = Range(b.rels), <<"twin-rels">>)

----------------------------------------------------------------------------
(* steps *)

Skip == m' = m /\ ses' = ses /\ dead' = dead

DoPkg(e) == Skip

DoBegin(e) ==
    /\ m' = Closed0 /\ dead' = FALSE
    /\ ses' = [NoSession EXCEPT !.scr = i]

\* opening: the specification allows nothing but success on a legal package
DoNew(e) ==
    IF PROP = "P27"
    THEN /\ (e.tw /\ e.ans # e.tans) => Report(e, <<"answer-alone", "open", e.ans, e.tans>>)
         /\ UNCHANGED <<m, ses, dead>>
    ELSE IF e.res = "ok"
    THEN /\ m' = IF e.kind # "new" THEN [Closed0 EXCEPT !.live = TRUE, !.src = e.src, !.office = e.kind]
                  ELSE IF e.blank THEN [OpenBlank EXCEPT !.src = e.src] ELSE Open(e.src, Trace[e.src].pkg)
         /\ UNCHANGED <<ses, dead>>
    ELSE /\ (e.legal \/ e.res # "err") => Report(e, <<"open", e.res>>)
         /\ m' = Closed0 /\ dead' = TRUE /\ ses' = ses

Loggable == {"add", "get", "cells", "row", "col", "view", "active", "hide", "style"}

DoOp(e) ==
    LET r == Apply(m, e.op, e.obs)
        want == IF r.res \in {"ok", "err"} THEN r.res ELSE "ok"
        n == [r.m EXCEPT !.log = IF e.op.op \in Loggable /\ r.res = "ok" THEN Append(@, e.op) ELSE @,
                         !.dirty = @ \/ (r.res = "ok" /\ (e.op.op \in {"rename", "delete"} \/ (e.op.op = "add" /\ e.op.auto)))]
    IN IF PROP = "P27"
       \* the answer is the one the same session gets when it is alone, whatever that is
       THEN /\ (e.tw /\ e.ans # e.tans) => Report(e, <<"answer-alone", e.op.op, e.ans, e.tans>>)
            /\ UNCHANGED <<m, ses, dead>>
       ELSE IF e.res = "panic"
       THEN Report(e, <<"panic", e.op.op>>) /\ dead' = TRUE /\ UNCHANGED <<m, ses>>
       ELSE IF ~e.legal
       \* on hostile input only the absence of panics is decided
       THEN UNCHANGED <<m, ses, dead>>
       ELSE IF e.res = want /\ r.res \in {"ok", "err"}
       THEN m' = n /\ UNCHANGED <<ses, dead>>
       ELSE IF PROP = "P03" /\ e.op.op \in {"cells", "rename", "add", "get", "style"} /\ want = "err" /\ ~e.op.textok
       \* accepted text that XML can not represent: the file must still be well-formed
       THEN ses' = [ses EXCEPT !.lax = TRUE] /\ UNCHANGED <<m, dead>>
       ELSE /\ Is(Concern(e.op.op)) => Report(e, <<"answer", e.op.op, e.res, r.res>>)
            /\ IF e.res = "err" THEN m' = [m EXCEPT !.fails = @ + 1] /\ dead' = dead ELSE m' = m /\ dead' = TRUE
            /\ ses' = ses

DoSave(e) ==
    IF PROP = "P27"
    THEN /\ IF e.tw /\ e.ans # e.tans THEN Report(e, <<"answer-alone", "save", e.ans, e.tans>>)
            ELSE (e.res = "ok" /\ e.twin # 0) => \A d \in Twin(Trace[e.twin].pkg, e.pkg) : Report(e, d)
         /\ UNCHANGED <<m, ses, dead>>
    ELSE IF e.res = "panic"
    THEN Report(e, <<"panic", "save">>) /\ dead' = TRUE /\ UNCHANGED <<m, ses>>
    ELSE IF e.res = "err"
    THEN /\ (e.legal /\ SaveOk(m) /\ ~e.badtarget) => Report(e, <<"save", e.res>>)
         /\ (Is({"P13", "P12", "P15"}) /\ e.tgt # "same") => Report(e, <<"target-changed">>)
         /\ m' = Closed0 /\ ses' = ses /\ dead' = ~e.more
    ELSE LET s == Trace[m.src].pkg
             q == e.pkg
             \* legal input: everything; hostile input: readable output
             ds == IF ses.lax THEN If(\A j \in 1..Len(q.parts) : q.parts[j].wf, <<"ill-formed">>)
                   ELSE IF ~q.ok THEN {<<"unreadable", q.err>>}
                   ELSE IF ~e.legal THEN
                        \* parts that were ill-formed before may stay so; of a container only the library can read nothing is known
                        (IF Is({"P15"}) /\ s.parts # <<>>
                         THEN {<<"ill-formed", q.parts[j].n>> : j \in {x \in 1..Len(q.parts) : ~q.parts[x].wf /\
                                 ~\E h \in 1..Len(s.parts) : s.parts[h].n = q.parts[x].n /\ ~s.parts[h].wf}}
                         ELSE {})
                   ELSE Findings(s, m, q, e)
                        \cup (IF Is({"P25"}) /\ Repeated(e) THEN Same(s, q) ELSE {})
             in == IF Is({"P15", "P13", "P12"}) /\ e.input # "same" THEN {<<"input-changed">>} ELSE {}
         IN /\ \A d \in ds \cup in : Report(e, d)
            /\ m' = Closed0
            /\ ses' = [ses EXCEPT !.plog = m.log, !.pfail = (m.dels # 0 \/ m.dirty), !.saved = e.line]
            /\ dead' = (dead \/ ses.lax)

DoDrop(e) == m' = Closed0 /\ UNCHANGED <<ses, dead>>

Step(e) ==
    CASE e.ev = "pkg"   -> DoPkg(e)
      [] e.ev = "begin" -> DoBegin(e)
      [] dead           -> Skip
      [] e.ev = "new"   -> DoNew(e)
      [] e.ev = "op"    -> DoOp(e)
      [] e.ev = "save"  -> DoSave(e)
      [] e.ev = "drop"  -> DoDrop(e)
      [] e.ev = "bad"   -> Report(e, <<e.what>>) /\ Skip
      [] OTHER          -> Skip

Init == i = 1 /\ m = Closed0 /\ ses = NoSession /\ dead = FALSE

Next ==
    \/ /\ i <= Len(Trace)
       /\ Step(Trace[i])
       /\ i' = i + 1
    \/ /\ i = Len(Trace) + 1
       /\ PrintT(<<"DONE", Len(Trace)>>)
       /\ i' = i + 1 /\ UNCHANGED <<m, ses, dead>>

Spec == Init /\ [][Next]_vars

\* the model stays consistent along every recorded behaviour
Consistent == m.live => ModelInv(m)
=============================================================================
