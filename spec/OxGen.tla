-------------------------------- MODULE OxGen -------------------------------
(***************************************************************************)
(* Behaviours of the specification as test scripts: long random walks.     *)
(*                                                                         *)
(* Each initial state starts one walk; a walk is a chain of sessions, each *)
(* a weighted choice of operations over small sets of tokens (names,       *)
(* positions, values, styles), ended by a save, after which the next       *)
(* session opens what was saved.  All random choices come from a generator *)
(* in the state, so a seed gives the same walks every time.  The model     *)
(* (OxBook!Apply) is carried along, so that walks are legal histories with *)
(* a chosen share of operations that must fail.  The printed walks are     *)
(* made concrete (tokens to names, texts, positions, formats) and replayed *)
(* on the library.                                                         *)
(***************************************************************************)
EXTENDS OxBook, Json, IOUtils

Cfg == ndJsonDeserialize(IOEnv.OX_GEN)[1]
\* Cfg: seed, walks, len (operations per session), sessions, mix (operation kinds, repeated
\* by weight), loaded (names of the sheets of the package the first session opens),
\* bad (one of so many operations is given a bad argument), rows, cols, vals, stys

VARIABLES w, rng, m, hist, n, ses, fin

vars == <<w, rng, m, hist, n, ses, fin>>

Lcg(x) == (x * 75 + 74) % 65537
RECURSIVE Draw(_, _)
Draw(x, k) == IF k = 0 THEN x ELSE Draw(Lcg(x), k - 1)
Range2(s) == {s[j] : j \in 1..Len(s)}
Pick(s, x) == s[1 + (x % Len(s))]

RECURSIVE SeqOf(_)
SeqOf(set) == IF set = {} THEN <<>> ELSE LET x == CHOOSE y \in set : TRUE IN <<x>> \o SeqOf(set \ {x})

FreshNames == <<"n1", "n2", "n3", "n4">>
HandleNames == <<"h1", "h2", "h3">>
StyleToks == <<"s1", "s2", "s3", "s4", "s5", "s6">>
ViewKinds == <<"visible", "minimize", "tabs", "vscroll", "hscroll">>
CellTypes == <<"auto", "auto", "n", "b", "s", "str", "inlineStr", "e", "s", "auto">>

StartSheets == [j \in 1..Len(Cfg.loaded) |-> [key |-> j, name |-> Cfg.loaded[j], state |-> "visible",
                                             part |-> IF Cfg.blank THEN "" ELSE "p" \o ToString(j)]]
FirstModel == [Closed0 EXCEPT !.live = TRUE, !.next = Len(Cfg.loaded) + 1, !.sheets = StartSheets,
                              !.over = [j \in 1..Len(Cfg.loaded) |-> NoOver]]
Reopened(x) == [Closed0 EXCEPT !.live = TRUE, !.next = Len(x.sheets) + 1,
                  !.sheets = [j \in 1..Len(x.sheets) |-> [key |-> j, name |-> x.sheets[j].name, state |-> x.sheets[j].state,
                                                         part |-> "p" \o ToString(j)]],
                  !.over = [j \in 1..Len(x.sheets) |-> NoOver]]

Init ==
    /\ w \in 1..Cfg.walks
    /\ rng = Draw((((Cfg.seed % 9973) * 31 + 17) + (w % 60000)) % 65537, 5)
    /\ m = FirstModel /\ hist = <<>> /\ n = 0 /\ ses = 1 /\ fin = FALSE

IsBad(x) == Cfg.bad > 0 /\ x % Cfg.bad = 0

\* the operation of one kind with the arguments drawn from x; [op |-> "none"] if there is none
None == [op |-> "none"]
OpenHs == SeqOf(DOMAIN m.handles)
FreeHs == SeqOf(Range2(HandleNames) \ DOMAIN m.handles)
Name(x, y) == IF x % 5 = 0 \/ Len(m.sheets) = 0 THEN Pick(FreshNames, y) ELSE Pick(Names(m), y)
Style(x) == IF x % 3 = 0 /\ DOMAIN m.sty # {} THEN Pick(SeqOf(DOMAIN m.sty), x \div 3) ELSE ""

Cell(x) ==
    LET a == Lcg(x)
        b == Lcg(a)
        c == Lcg(b)
        hv == a % 9 # 0
        hf == b % Cfg.formula = 0
    IN [v |-> "v" \o ToString(1 + (a % Cfg.vals)), hv |-> hv, cp |-> <<>>, t |-> Pick(CellTypes, b),
        f |-> "f" \o ToString(1 + (c % Cfg.vals)), hf |-> hf, fcp |-> <<>>, sty |-> Style(c), num |-> FALSE, nv |-> ""]

Operation(kind, x) ==
    LET a == Lcg(x)
        b == Lcg(a)
        c == Lcg(b)
        d == Lcg(c)
        e == Lcg(d)
        bad == IsBad(e)
    IN CASE kind = "add"    -> IF FreeHs = <<>> THEN None
                               ELSE [op |-> "add", h |-> Pick(FreeHs, a), auto |-> FALSE, cp |-> IF bad THEN <<1>> ELSE <<>>,
                                     name |-> IF bad THEN "bad" ELSE Pick(FreshNames, b)]
         [] kind = "auto"   -> IF FreeHs = <<>> THEN None
                               ELSE [op |-> "add", h |-> Pick(FreeHs, a), auto |-> TRUE, name |-> "", cp |-> <<>>,
                                     tok |-> "auto" \o ToString(Len(hist))]
         [] kind = "get"    -> IF FreeHs = <<>> THEN None
                               ELSE [op |-> "get", h |-> Pick(FreeHs, a), auto |-> FALSE, name |-> Name(b, c), cp |-> <<>>]
         [] kind = "close"  -> IF OpenHs = <<>> THEN None ELSE [op |-> "close", h |-> Pick(OpenHs, a)]
         [] kind = "delete" -> IF OpenHs = <<>> \/ Len(m.sheets) < 2 THEN None ELSE [op |-> "delete", h |-> Pick(OpenHs, a)]
         [] kind = "rename" -> [op |-> "rename", old |-> Name(a, b), new |-> IF c % 4 = 0 THEN Name(c, d) ELSE Pick(FreshNames, d), cp |-> IF bad THEN <<1>> ELSE <<>>]
         [] kind = "cells"  -> IF OpenHs = <<>> THEN None
                               ELSE [op |-> "cells", h |-> Pick(OpenHs, a), byref |-> bad \/ b % 2 = 0,
                                     refcp |-> IF bad THEN <<49>> ELSE <<64 + 1 + (c % Cfg.cols), 48 + 1 + (d % Cfg.rows)>>,
                                     row |-> 1 + (d % Cfg.rows), col |-> 1 + (c % Cfg.cols),
                                     cells |-> [j \in 1..(1 + ((e \div 16) % Cfg.run)) |-> Cell(Draw(e, j))]]
         [] kind = "row"    -> IF OpenHs = <<>> THEN None
                               ELSE [op |-> "row", h |-> Pick(OpenHs, a), row |-> IF bad THEN 0 ELSE 1 + (b % Cfg.rows),
                                     p |-> [ht |-> ToString(c % 4), hidden |-> c % 3 = 0, tt |-> d % 3 = 0, tb |-> e % 3 = 0, sty |-> Style(d)]]
         [] kind = "col"    -> IF OpenHs = <<>> THEN None
                               ELSE [op |-> "col", h |-> Pick(OpenHs, a), byref |-> bad \/ b % 2 = 0,
                                     refcp |-> IF bad THEN <<49>> ELSE <<64 + 1 + (c % Cfg.cols)>>, col |-> 1 + (c % Cfg.cols),
                                     clear |-> d % 4 = 0,
                                     p |-> [w |-> ToString(d % 5), hidden |-> d % 3 = 0, bf |-> e % 3 = 0, sty |-> Style(e)]]
         [] kind = "style"  -> [op |-> "style", tok |-> Pick(StyleToks, a), s |-> 1 + (b % Cfg.stys)]
         [] kind = "view"   -> [op |-> "view", kind |-> Pick(ViewKinds, a), v |-> b % 2 = 0]
         [] kind = "active" -> [op |-> "active", name |-> Name(a, b)]
         [] kind = "hide"   -> [op |-> "hide", name |-> Name(a, b)]
         [] kind = "list"   -> [op |-> "list"]
         [] OTHER -> None

\* names the library invents: the generator only has to keep them apart
Step(o) ==
    CASE o.op = "style" -> [m EXCEPT !.sty = Put(@, o.tok, 0)]
      [] o.op = "add" /\ o.auto -> AddUnnamed(m, o.h, Append(Names(m), o.tok)).m
      [] o.op = "list" -> m
      [] OTHER -> Apply(m, o, 0).m

ClosesFirst(x) == x % Cfg.openSave # 0

EndSession ==
    IF DOMAIN m.handles # {} /\ ClosesFirst(rng)
    THEN LET h == CHOOSE y \in DOMAIN m.handles : TRUE
         IN /\ m' = Apply(m, [op |-> "close", h |-> h], 0).m
            /\ hist' = Append(hist, [op |-> "close", h |-> h])
            /\ UNCHANGED <<w, n, ses, fin>> /\ rng' = rng
    ELSE /\ hist' = Append(hist, [op |-> "save", ok |-> SaveOk(m)])
         /\ m' = Reopened(m)
         /\ n' = 0 /\ ses' = ses + 1 /\ fin' = (ses = Cfg.sessions \/ ~SaveOk(m))
         /\ rng' = Lcg(rng) /\ w' = w

Next ==
    /\ ~fin
    /\ IF n >= Cfg.len THEN EndSession
       ELSE LET kind == Pick(Cfg.mix, rng)
                \* an edit without an open handle becomes the opening of one
                o == Operation(IF kind \in {"cells", "row", "col", "close", "delete"} /\ OpenHs = <<>> THEN "get" ELSE kind, Lcg(rng))
            IN /\ rng' = Draw(rng, 7)
               /\ n' = n + 1
               /\ IF o.op = "none" THEN UNCHANGED <<m, hist>>
                  ELSE m' = Step(o) /\ hist' = Append(hist, o)
               /\ UNCHANGED <<w, ses, fin>>
    /\ fin' => PrintT(<<"SCRIPT", w, ToJson(hist')>>)

Spec == Init /\ [][Next]_vars
Consistent == ModelInv(m)
=============================================================================
