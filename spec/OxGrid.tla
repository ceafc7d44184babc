------------------------------- MODULE OxGrid -------------------------------
(***************************************************************************)
(* The grid of a sheet and the A1 scheme: columns A (1) .. XFD (16384),    *)
(* rows 1 .. 1048576.  A reference is 1-3 letters followed by a row number *)
(* without leading zero; both must lie in the grid.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, OxText

MaxRow == 1048576
MaxCol == 16384

Letter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
LetterVal(c) == Lower(c) - 96

RECURSIVE SkipLetters(_, _)
SkipLetters(cp, i) == IF i <= Len(cp) /\ Letter(cp[i]) THEN SkipLetters(cp, i + 1) ELSE i

RECURSIVE ColNum(_)
ColNum(cp) == IF cp = <<>> THEN 0 ELSE ColNum(SubSeq(cp, 1, Len(cp) - 1)) * 26 + LetterVal(cp[Len(cp)])

RECURSIVE ColName(_)
\* inverse of ColNum on 1..MaxCol, as upper-case code points
ColName(n) == IF n = 0 THEN <<>> ELSE ColName((n - 1) \div 26) \o <<65 + ((n - 1) % 26)>>

LettersOf(cp) == SubSeq(cp, 1, SkipLetters(cp, 1) - 1)
RestOf(cp)    == SubSeq(cp, SkipLetters(cp, 1), Len(cp))
AllDigits(d)  == \A i \in 1..Len(d) : Digit(d[i])

RowOk(r) == r >= 1 /\ r <= MaxRow
ColOk(c) == c >= 1 /\ c <= MaxCol

BadRef == [ok |-> FALSE, r |-> 0, c |-> 0]
CellRef(cp) ==
    LET l == LettersOf(cp)
        d == RestOf(cp)
    IN IF Len(l) \in 1..3 /\ Len(d) \in 1..7 /\ AllDigits(d) /\ d[1] # 48
       THEN LET c == ColNum(l)
                r == NumOf(d)
            IN IF RowOk(r) /\ ColOk(c) THEN [ok |-> TRUE, r |-> r, c |-> c] ELSE BadRef
       ELSE BadRef

\* a column may be given by its letters alone or by a reference to one of its cells
ColRef(cp) ==
    LET l == LettersOf(cp)
    IN IF RestOf(cp) = <<>>
       THEN IF Len(l) \in 1..3 /\ ColOk(ColNum(l)) THEN [ok |-> TRUE, r |-> 1, c |-> ColNum(l)] ELSE BadRef
       ELSE CellRef(cp)

\* keys of cells and rows in a projection
CellKey(r, c) == ToString(r) \o "," \o ToString(c)
RowKey(r) == ToString(r)
=============================================================================
