------------------------------- MODULE OxBook -------------------------------
(***************************************************************************)
(* The workbook session as a state machine.                                *)
(*                                                                         *)
(* A session opens a package (or starts a blank one), keeps a list of      *)
(* sheets, hands out at most one open handle per sheet, takes edits        *)
(* through handles, and ends with a save.  The state holds what the        *)
(* session changed on top of the package it opened:                        *)
(*                                                                         *)
(*   sheets   the sheet list: key (identity), name, state, part (the part  *)
(*            of a loaded sheet, "" for a sheet the session added)         *)
(*   handles  handle name -> key of the sheet it is open on                *)
(*   over     key -> cells, rows and columns written in this session       *)
(*   opened   keys of sheets that had a handle                             *)
(*   view     window settings changed in this session                      *)
(*   act      key of the sheet last made active, 0 if none was             *)
(*   sty      style token -> id;  reqs: the requests made and their ids    *)
(*   gone     loaded parts whose sheet was deleted                         *)
(*                                                                         *)
(* Apply(m, op, obs) is the specification of every operation: the response *)
(* and the next state.  obs is used only where the library is free to      *)
(* choose (the name of a sheet added without one, the number of a style    *)
(* id); the specification then constrains the choice.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, OxText, OxGrid, OxStyle

EmptyF == [x \in {} |-> x]
NoOver == [cells |-> EmptyF, rows |-> EmptyF, cols |-> EmptyF]

Closed0 == [live |-> FALSE, src |-> 0, sheets |-> <<>>, next |-> 1, handles |-> EmptyF,
            over |-> EmptyF, opened |-> {}, view |-> EmptyF, act |-> 0, sty |-> EmptyF,
            reqs |-> {}, gone |-> {}, log |-> <<>>, fails |-> 0, dels |-> 0, dirty |-> FALSE,
            actgone |-> FALSE, written |-> {}, flat |-> {}, office |-> ""]

\* a session on the package projected by p, at position src of the trace
Open(src, p) ==
    LET n == Len(p.wb.sheets)
    IN [Closed0 EXCEPT
          !.live = TRUE, !.src = src, !.next = n + 1,
          !.sheets = [i \in 1..n |-> [key |-> i, name |-> p.wb.sheets[i].name,
                                      state |-> p.wb.sheets[i].state, part |-> p.wb.sheets[i].part]],
          !.flat = {i \in 1..n : p.wb.sheets[i].part \notin DOMAIN p.sheets},
          !.over = [i \in 1..n |-> NoOver]]

\* a blank workbook has one sheet whose name the library chooses
OpenBlank ==
    [Closed0 EXCEPT !.live = TRUE, !.next = 2,
        !.sheets = <<[key |-> 1, name |-> "sheet1", state |-> "visible", part |-> ""]>>,
        !.over = [i \in {1} |-> NoOver]]

Names(m) == [i \in 1..Len(m.sheets) |-> m.sheets[i].name]
NameSet(m) == {m.sheets[i].name : i \in 1..Len(m.sheets)}
IndexOf(m, name) == CHOOSE i \in 1..Len(m.sheets) : m.sheets[i].name = name
IndexOfKey(m, k) == CHOOSE i \in 1..Len(m.sheets) : m.sheets[i].key = k
Keys(m) == {m.sheets[i].key : i \in 1..Len(m.sheets)}
OpenKeys(m) == {m.handles[h] : h \in DOMAIN m.handles}
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, k, v) == (k :> v) @@ f

Ok(m)  == [m |-> m, res |-> "ok"]
\* a failed operation changes nothing
Err(m) == [m |-> [m EXCEPT !.fails = @ + 1], res |-> "err"]

----------------------------------------------------------------------------
(* sheets and handles *)

OpenHandle(m, h, k) ==
    Ok([m EXCEPT !.handles = Put(@, h, k), !.opened = @ \cup {k}])

Create(m, h, name) ==
    LET k == m.next
    IN Ok([m EXCEPT !.sheets = Append(@, [key |-> k, name |-> name, state |-> "visible", part |-> ""]),
                    !.next = k + 1, !.over = Put(@, k, NoOver),
                    !.handles = Put(@, h, k), !.opened = @ \cup {k}])

\* add and get both open the sheet of that name and create it if there is none
OpenOrCreate(m, h, name, cp) ==
    IF name \in NameSet(m)
    THEN LET k == m.sheets[IndexOf(m, name)].key
         IN IF k \in OpenKeys(m) \/ k \in m.flat THEN Err(m) ELSE OpenHandle(m, h, k)
    ELSE IF ~XmlLegal(cp) THEN Err(m) ELSE Create(m, h, name)

\* the library chooses a name that is not in use: obs is the sheet list it reports afterwards
AddUnnamed(m, h, obs) ==
    IF Len(obs) = Len(m.sheets) + 1 /\ obs[Len(obs)] \notin NameSet(m)
    THEN Create(m, h, obs[Len(obs)])
    ELSE [Create(m, h, "\\unnamed") EXCEPT !.res = "badname"]

Rename(m, old, new, cp) ==
    IF new \in NameSet(m) \/ old \notin NameSet(m) \/ ~XmlLegal(cp) THEN Err(m)
    ELSE Ok([m EXCEPT !.sheets[IndexOf(m, old)].name = new])

Delete(m, h) ==
    LET k == m.handles[h]
        i == IndexOfKey(m, k)
    IN Ok([m EXCEPT !.sheets = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@)),
                    !.handles = Without(@, h),
                    !.over = Without(@, k),
                    !.opened = @ \ {k},
                    !.written = @ \ {k},
                    !.act = IF @ = k THEN 0 ELSE @,
                    !.actgone = @ \/ m.act = k,
                    !.dels = @ + 1,
                    !.gone = IF m.sheets[i].part = "" THEN @ ELSE @ \cup {m.sheets[i].part}])

----------------------------------------------------------------------------
(* edits through a handle *)

CellTextOk(c) == (c.hv => XmlLegal(c.cp)) /\ (c.hf => XmlLegal(c.fcp))

StyleOf(m, tok) == IF tok \in DOMAIN m.sty THEN m.sty[tok] ELSE 0

\* what a write puts into the file
Written(m, c) ==
    LET k == IF ~c.hv THEN "n"
             ELSE IF c.t = "auto" THEN AutoKind(c.cp) ELSE c.t
    IN [t |-> k,
        v |-> IF ~c.hv THEN ""
              ELSE IF k = "b" THEN (IF c.t = "auto" THEN (IF c.cp = TrueCp THEN "1" ELSE "0") ELSE BoolDigit(c.cp))
              ELSE c.v,
        hf |-> c.hf, f |-> IF c.hf THEN c.f ELSE "", s |-> StyleOf(m, c.sty),
        hv |-> c.hv, num |-> c.num, nv |-> c.nv, given |-> c.t, text |-> c.hv /\ k \in {"s", "str", "inlineStr"}]

Where(op) == IF op.byref THEN CellRef(op.refcp)
             ELSE [ok |-> RowOk(op.row) /\ ColOk(op.col), r |-> op.row, c |-> op.col]

\* cells i to j of a write that starts at a (halved: rows can be long)
RECURSIVE RowOfCells(_, _, _, _, _)
RowOfCells(m, a, cells, i, j) ==
    IF i > j THEN EmptyF
    ELSE IF i = j THEN CellKey(a.r, a.c + i - 1) :> Written(m, cells[i])
    ELSE LET h == (i + j) \div 2 IN RowOfCells(m, a, cells, i, h) @@ RowOfCells(m, a, cells, h + 1, j)

SetCells(m, op) ==
    LET a == Where(op)
        k == m.handles[op.h]
        n == Len(op.cells)
    IN IF ~a.ok \/ a.c + n - 1 > MaxCol \/ (\E i \in 1..n : ~CellTextOk(op.cells[i])) THEN Err(m)
       ELSE LET new == RowOfCells(m, a, op.cells, 1, n)
            IN Ok([m EXCEPT !.over[k].cells = new @@ @, !.written = @ \cup {k}])

\* sizes are numbers; "?" stands for infinities and what is no number
Finite(x) == x # "?"

SetRow(m, op) ==
    IF ~RowOk(op.row) \/ ~Finite(op.p.ht) THEN Err(m)
    ELSE LET k == m.handles[op.h]
             p == op.p
         IN Ok([m EXCEPT !.over[k].rows =
                  Put(@, RowKey(op.row), [ht |-> p.ht, hidden |-> p.hidden, tt |-> p.tt, tb |-> p.tb,
                                  s |-> IF p.sty \in DOMAIN m.sty THEN m.sty[p.sty] ELSE 0 - 1]),
                  !.written = @ \cup {k}])

WhereCol(op) == IF op.byref THEN ColRef(op.refcp)
                ELSE [ok |-> ColOk(op.col), r |-> 1, c |-> op.col]

SetCol(m, op) ==
    LET a == WhereCol(op)
        k == m.handles[op.h]
        p == op.p
    IN IF ~a.ok \/ (~op.clear /\ ~Finite(p.w)) THEN Err(m)
       ELSE Ok([m EXCEPT !.over[k].cols =
                  Put(@, a.c, IF op.clear THEN [clear |-> TRUE, w |-> "", hidden |-> FALSE, bf |-> FALSE, s |-> 0]
                            ELSE [clear |-> FALSE, w |-> p.w, hidden |-> p.hidden, bf |-> p.bf,
                                  s |-> StyleOf(m, p.sty)]),
                  !.written = @ \cup {k}])

----------------------------------------------------------------------------
(* window, styles *)

SetView(m, op) == Ok([m EXCEPT !.view = Put(@, op.kind, op.v)])

SetActive(m, name) ==
    IF name \in NameSet(m) THEN Ok([m EXCEPT !.act = m.sheets[IndexOf(m, name)].key, !.actgone = FALSE]) ELSE Err(m)

Hide(m, name) ==
    IF name \in NameSet(m) THEN Ok([m EXCEPT !.sheets[IndexOf(m, name)].state =
                               \* hiding what is hidden in another way leaves it out of sight
                               IF @ \in {"visible", "hidden"} THEN "hidden" ELSE "nonvisible"])
    ELSE Err(m)

ReqLegal(op) ==
    /\ ~(op.s.num = 0 - 1 /\ ~op.s.hascode)
    /\ \A i \in 1..Len(op.texts) : XmlLegal(op.texts[i])

\* equal requests, and only those, share an id
IdFits(m, req, id) ==
    \A x \in m.reqs : (x.id = id) <=> (Requested(x.req) = Requested(req))

MakeStyle(m, op, id) ==
    IF ~ReqLegal(op) THEN Err(m)
    ELSE IF ~IdFits(m, op.s, id) THEN [Ok(m) EXCEPT !.res = "badid"]
    ELSE Ok([m EXCEPT !.sty = Put(@, op.tok, id), !.reqs = @ \cup {[id |-> id, req |-> op.s]}])

----------------------------------------------------------------------------
(* every operation on a live session *)

Apply(m, op, obs) ==
    CASE op.op = "add"    -> IF op.auto THEN AddUnnamed(m, op.h, obs) ELSE OpenOrCreate(m, op.h, op.name, op.cp)
      [] op.op = "get"    -> OpenOrCreate(m, op.h, op.name, op.cp)
      [] op.op = "close"  -> IF op.h \in DOMAIN m.handles
                             THEN Ok([m EXCEPT !.handles = Without(@, op.h)]) ELSE Err(m)
      [] op.op = "delete" -> IF op.h \in DOMAIN m.handles THEN Delete(m, op.h) ELSE Err(m)
      [] op.op = "rename" -> Rename(m, op.old, op.new, op.cp)
      [] op.op = "cells"  -> IF op.h \in DOMAIN m.handles THEN SetCells(m, op) ELSE Err(m)
      [] op.op = "row"    -> IF op.h \in DOMAIN m.handles THEN SetRow(m, op) ELSE Err(m)
      [] op.op = "col"    -> IF op.h \in DOMAIN m.handles THEN SetCol(m, op) ELSE Err(m)
      [] op.op = "view"   -> SetView(m, op)
      [] op.op = "active" -> SetActive(m, op.name)
      [] op.op = "hide"   -> Hide(m, op.name)
      [] op.op = "style"  -> MakeStyle(m, op, obs)
      [] op.op = "list"   -> [Ok(m) EXCEPT !.res = IF obs = Names(m) THEN "ok" ELSE "badlist"]
      [] OTHER            -> Err(m)

\* a save takes only a workbook without open handles
SaveOk(m) == m.live /\ DOMAIN m.handles = {}

----------------------------------------------------------------------------
(* consistency of the model itself, checked exhaustively by OxMC *)

ModelInv(m) ==
    /\ \A i, j \in 1..Len(m.sheets) : i # j => m.sheets[i].name # m.sheets[j].name /\ m.sheets[i].key # m.sheets[j].key
    /\ DOMAIN m.over = Keys(m)
    /\ OpenKeys(m) \subseteq Keys(m)
    /\ \A h, g \in DOMAIN m.handles : h # g => m.handles[h] # m.handles[g]
    /\ m.opened \subseteq Keys(m)
    /\ m.act = 0 \/ m.act \in Keys(m)
    /\ \A k \in Keys(m) : k < m.next
    /\ LET ids == {x.id : x \in m.reqs}
           rqs == {Requested(x.req) : x \in m.reqs}
           prs == {<<x.id, Requested(x.req)>> : x \in m.reqs}
       IN Cardinality(ids) = Cardinality(prs) /\ Cardinality(rqs) = Cardinality(prs)
=============================================================================
