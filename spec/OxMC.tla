-------------------------------- MODULE OxMC --------------------------------
(***************************************************************************)
(* The session exhaustively, in a small scope.                             *)
(*                                                                         *)
(* TLC explores every state of OxBook that a given alphabet of operations  *)
(* reaches within Cfg.depth steps, over one or more sessions (a save is a  *)
(* step, after which the next session opens what was saved).  It checks    *)
(* the consistency of the model and what single steps may change, and it   *)
(* prints one test script for every transition of the state graph: the     *)
(* shortest way to its first state, the operation, and a save.  Replaying  *)
(* these scripts takes the library through every (state, operation) pair   *)
(* of the scope.                                                           *)
(***************************************************************************)
EXTENDS OxBook, Json, IOUtils

Cfg == ndJsonDeserialize(IOEnv.OX_GEN)[1]
\* Cfg: depth, handles, loaded (sheet names of the first package), blank, alphabet (operations
\* without handles; [op |-> "save"] ends a session)

VARIABLES m, hist, past, fin
vars == <<m, hist, past, fin>>

Alphabet == {Cfg.alphabet[j] : j \in 1..Len(Cfg.alphabet)}
Handles == {Cfg.handles[j] : j \in 1..Len(Cfg.handles)}

FirstModel ==
    [Closed0 EXCEPT !.live = TRUE, !.next = Len(Cfg.loaded) + 1,
        !.sheets = [j \in 1..Len(Cfg.loaded) |-> [key |-> j, name |-> Cfg.loaded[j], state |-> "visible",
                                                  part |-> IF Cfg.blank THEN "" ELSE "p" \o ToString(j)]],
        !.over = [j \in 1..Len(Cfg.loaded) |-> NoOver]]
Reopened(x) ==
    [Closed0 EXCEPT !.live = TRUE, !.next = Len(x.sheets) + 1,
        !.sheets = [j \in 1..Len(x.sheets) |-> [key |-> j, name |-> x.sheets[j].name, state |-> x.sheets[j].state,
                                               part |-> "p" \o ToString(j)]],
        !.over = [j \in 1..Len(x.sheets) |-> NoOver]]

Init == m = FirstModel /\ hist = <<>> /\ past = <<>> /\ fin = FALSE

With(o, h) == [x \in DOMAIN o \cup {"h"} |-> IF x = "h" THEN h ELSE o[x]]

\* the operations of one kind that can be asked for in this state; handle names are
\* interchangeable, so a new handle takes the first free one
FreeHandle == LET f == {j \in 1..Len(Cfg.handles) : Cfg.handles[j] \notin DOMAIN m.handles}
              IN IF f = {} THEN "" ELSE Cfg.handles[CHOOSE j \in f : \A k \in f : j <= k]
Asked(o) ==
    CASE o.op \in {"add", "get"} ->
            IF FreeHandle = "" THEN {}
            ELSE {With(IF o.auto THEN [o EXCEPT !.tok = "auto" \o ToString(Len(hist))] ELSE o, FreeHandle)}
      [] o.op = "delete" -> IF Len(m.sheets) < 2 THEN {} ELSE {With(o, h) : h \in DOMAIN m.handles}
      [] o.op \in {"close", "cells", "row", "col"} -> {With(o, h) : h \in DOMAIN m.handles}
      [] OTHER -> {o}

\* ids are not decided here: equal requests share a token's number
After(o) ==
    CASE o.op = "style" -> [m EXCEPT !.sty = Put(@, o.tok, o.s), !.log = Append(@, <<o.tok, o.s>>)]
      [] o.op = "add" /\ o.auto -> AddUnnamed(m, o.h, Append(Names(m), o.tok)).m
      [] o.op = "list" -> m
      [] OTHER -> Apply(m, o, 0).m

RECURSIVE Closes(_)
Closes(hs) == IF hs = {} THEN <<>> ELSE LET h == CHOOSE x \in hs : TRUE IN <<[op |-> "close", h |-> h]>> \o Closes(hs \ {h})
Ending(x) == Closes(DOMAIN x.handles) \o <<[op |-> "save", ok |-> TRUE]>>

Script(h) == PrintT(<<"SCRIPT", ToJson(h)>>)

Operate ==
    \E o \in Alphabet : o.op # "save" /\ \E a \in Asked(o) :
       /\ m' = After(a)
       /\ hist' = Append(hist, a)
       /\ UNCHANGED <<past, fin>>
       /\ Script(hist' \o Ending(m'))

Save ==
    /\ \E o \in Alphabet : o.op = "save"
    /\ hist # <<>> /\ hist[Len(hist)].op # "save"
    /\ hist' = Append(hist, [op |-> "save", ok |-> SaveOk(m)])
    /\ m' = IF SaveOk(m) THEN Reopened(m) ELSE Closed0
    /\ past' = Append(past, <<m.over, m.view, m.act, m.log>>)
    /\ fin' = ~SaveOk(m)
    /\ ~SaveOk(m) => Script(hist')

Next == ~fin /\ Len(hist) < Cfg.depth /\ (Operate \/ Save)
Spec == Init /\ [][Next]_vars

\* what tells states apart: everything but the way they were reached
State == <<[m EXCEPT !.fails = 0], past, fin>>

----------------------------------------------------------------------------
(* what holds in every state, and what single steps may change *)

Consistent == m.live => ModelInv(m)

Last == hist'[Len(hist')]
Stepped == Len(hist') = Len(hist) + 1 /\ Last.op # "save"

\* P13: what is refused changes nothing
RefusedChangesNothing ==
    [][(Stepped /\ m'.fails # m.fails) => m' = [m EXCEPT !.fails = m'.fails]]_vars
\* P13: one handle per sheet, and a second request for an open sheet is refused
Exclusive ==
    [][(Stepped /\ Last.op \in {"get", "add"} /\ ~Last.auto /\ Last.name \in NameSet(m)
        /\ m.sheets[IndexOf(m, Last.name)].key \in OpenKeys(m)) => m'.fails = m.fails + 1]_vars
\* P14: deleting removes one sheet and nothing else
DeletesOne ==
    [][(Stepped /\ Last.op = "delete" /\ m'.fails = m.fails) =>
         LET k == m.handles[Last.h]
         IN /\ Keys(m') = Keys(m) \ {k}
            /\ \A j \in Keys(m') : m'.over[j] = m.over[j] /\ m'.sheets[IndexOfKey(m', j)] = m.sheets[IndexOfKey(m, j)]
            /\ \A i, j \in Keys(m') : IndexOfKey(m', i) < IndexOfKey(m', j) <=> IndexOfKey(m, i) < IndexOfKey(m, j)]_vars
\* P01: a rename changes one name, an addition appends one sheet
RenamesOne ==
    [][(Stepped /\ Last.op = "rename" /\ m'.fails = m.fails) =>
         /\ Last.new \notin NameSet(m) /\ Last.old \in NameSet(m)
         /\ NameSet(m') = (NameSet(m) \ {Last.old}) \cup {Last.new}
         /\ [j \in 1..Len(m'.sheets) |-> m'.sheets[j].key] = [j \in 1..Len(m.sheets) |-> m.sheets[j].key]]_vars
AddsLast ==
    [][(Stepped /\ Len(m'.sheets) > Len(m.sheets)) =>
         Last.op \in {"add", "get"} /\ SubSeq(m'.sheets, 1, Len(m.sheets)) = m.sheets /\ Len(m'.sheets) = Len(m.sheets) + 1]_vars
\* P02, P06, P07: an edit touches the sheet of its handle and no other aspect of it
EditsOne ==
    [][(Stepped /\ Last.op \in {"cells", "row", "col"} /\ m'.fails = m.fails) =>
         LET k == m.handles[Last.h]
         IN /\ \A j \in Keys(m) \ {k} : m'.over[j] = m.over[j]
            /\ m'.sheets = m.sheets /\ m'.handles = m.handles /\ m'.view = m.view /\ m'.act = m.act
            /\ Last.op # "cells" => m'.over[k].cells = m.over[k].cells
            /\ Last.op # "row" => m'.over[k].rows = m.over[k].rows
            /\ Last.op # "col" => m'.over[k].cols = m.over[k].cols
            /\ Last.op = "col" => \A c \in DOMAIN m'.over[k].cols : c # Last.col => (c \in DOMAIN m.over[k].cols /\ m'.over[k].cols[c] = m.over[k].cols[c])]_vars
\* P09: hiding and window settings leave everything else alone
HidesOne ==
    [][(Stepped /\ Last.op \in {"hide", "view", "active"} /\ m'.fails = m.fails) =>
         /\ m'.over = m.over /\ m'.handles = m.handles /\ Names(m') = Names(m)
         /\ \A j \in 1..Len(m.sheets) : m'.sheets[j].state # m.sheets[j].state => Last.op = "hide" /\ m.sheets[j].name = Last.name]_vars
=============================================================================
