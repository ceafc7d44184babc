------------------------------- MODULE OxStyle ------------------------------
(***************************************************************************)
(* Style sheets: what a style id stands for.  An id is an index into the   *)
(* cell formats; its meaning is found by following the indices of the      *)
(* format into the fonts, fills, borders and number formats.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoColor == [k |-> "none", v |-> "", x |-> ""]

At(s, i) == IF i >= 0 /\ i < Len(s) THEN s[i + 1] ELSE [missing |-> i]

\* number formats defined in the sheet hide the built-in ones of the same id
NumOfId(sty, id) ==
    LET hit == {i \in 1..Len(sty.numFmts) : sty.numFmts[i].id = id}
    IN IF hit = {} THEN [id |-> id, code |-> ""]
       ELSE [id |-> 0 - 1, code |-> sty.numFmts[CHOOSE i \in hit : \A j \in hit : i <= j].code]

ResolveXf(sty, xf) ==
    [num    |-> NumOfId(sty, xf.num),
     font   |-> At(sty.fonts, xf.font),
     fill   |-> At(sty.fills, xf.fill),
     border |-> At(sty.borders, xf.border),
     h |-> xf.h, va |-> xf.va, wrap |-> xf.wrap, x |-> xf.x]

Known(sty, id) == id >= 0 /\ id < Len(sty.xfs)

\* everything id stands for, including the named style it is based on
Resolve(sty, id) ==
    IF ~Known(sty, id) THEN [missing |-> id]
    ELSE LET xf == sty.xfs[id + 1]
         IN [cell |-> ResolveXf(sty, xf), ap |-> xf.ap,
             base |-> IF xf.xfid >= 0 /\ xf.xfid < Len(sty.csx)
                      THEN ResolveXf(sty, sty.csx[xf.xfid + 1]) ELSE [missing |-> xf.xfid]]

\* ---- requests ----------------------------------------------------------
\* a request as the driver gives it, with every field present
BorderOf(b) == [s |-> b.s, c |-> IF b.s = "none" THEN NoColor ELSE b.c]

Requested(r) ==
    [num    |-> IF r.num = 0 - 1 THEN [id |-> 0 - 1, code |-> r.code] ELSE [id |-> r.num, code |-> ""],
     font   |-> [name |-> r.font, size |-> r.size, color |-> r.color, b |-> r.b, i |-> r.i,
                 u |-> IF r.uu THEN "double" ELSE IF r.u THEN "single" ELSE "none"],
     fill   |-> [fg |-> r.fg, bg |-> r.bg],
     border |-> [l |-> BorderOf(r.bl), r |-> BorderOf(r.br), t |-> BorderOf(r.bt),
                 b |-> BorderOf(r.bb), d |-> BorderOf(r.bd)],
     h |-> r.h, va |-> r.va, wrap |-> r.wrap]

\* the same view of a stored format
Stored(sty, id) ==
    IF ~Known(sty, id) THEN [missing |-> id]
    ELSE LET xf == sty.xfs[id + 1]
             f == At(sty.fonts, xf.font)
             l == At(sty.fills, xf.fill)
             b == At(sty.borders, xf.border)
         IN IF "missing" \in (DOMAIN f \cup DOMAIN l \cup DOMAIN b) THEN [missing |-> id]
            ELSE [num |-> xf.num,
                  font |-> [name |-> f.name, size |-> f.size, color |-> f.color, b |-> f.b, i |-> f.i, u |-> f.u],
                  fill |-> [fg |-> l.fg, bg |-> l.bg],
                  border |-> [l |-> b.l, r |-> b.r, t |-> b.t, b |-> b.b, d |-> b.d],
                  h |-> xf.h, va |-> xf.va, wrap |-> xf.wrap]

\* a built-in number format is requested by its id, a custom one by its code
NumMatches(sty, num, want) ==
    IF want.id >= 0 THEN num = want.id ELSE NumOfId(sty, num) = want

\* an id stands for exactly the requested formatting
StandsFor(sty, id, req) ==
    LET s == Stored(sty, id)
        w == Requested(req)
    IN /\ "missing" \notin DOMAIN s
       /\ NumMatches(sty, s.num, w.num)
       /\ [s EXCEPT !.num = 0] = [w EXCEPT !.num = 0]

\* the parts of a format that a request does not mention must be neutral: nothing
\* beyond what was asked for
Neutral(sty, id) ==
    Known(sty, id) =>
      LET xf == sty.xfs[id + 1]
          f == At(sty.fonts, xf.font)
          l == At(sty.fills, xf.fill)
          b == At(sty.borders, xf.border)
      IN /\ xf.x = "||"
         /\ ("x" \in DOMAIN f) => f.x = ""
         /\ ("pat" \in DOMAIN l) =>
               /\ l.x = ""
               /\ l.pat \in {"none", "solid"}
               /\ l.pat = "solid" => (l.fg.k # "none" \/ l.bg.k # "none")
         /\ ("x" \in DOMAIN b) => b.x = ""

\* the parts of a format that differ from the default are in effect: a format the
\* session added says so, one it found does not say the opposite
InEffect(sty, id, loaded) ==
    Known(sty, id) =>
      LET xf == sty.xfs[id + 1]
          parts == {<<"applyNumberFormat", xf.num # 0>>, <<"applyFont", xf.font # 0>>, <<"applyFill", xf.fill # 0>>,
                    <<"applyBorder", xf.border # 0>>, <<"applyAlignment", xf.h # "" \/ xf.va # "" \/ xf.wrap>>}
          says(q, k) == \E i \in 1..Len(q) : q[i] = k
      IN \A x \in parts : x[2] => IF id < loaded THEN ~says(xf.off, x[1]) ELSE says(xf.on, x[1])
=============================================================================
