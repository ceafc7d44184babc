------------------------------- MODULE OxText -------------------------------
(***************************************************************************)
(* Texts as sequences of code points: which characters XML can represent,  *)
(* how a value written with automatic typing is classified, and how an     *)
(* explicit boolean is normalised.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Tail2(s, n) == SubSeq(s, n, Len(s))

XmlChar(c) ==
    \/ c \in {9, 10, 13}
    \/ c >= 32 /\ c <= 55295
    \/ c >= 57344 /\ c <= 65533
    \/ c >= 65536 /\ c <= 1114111

XmlLegal(cp) == \A i \in 1..Len(cp) : XmlChar(cp[i])

Digit(c) == c >= 48 /\ c <= 57
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowerAll(cp) == [i \in 1..Len(cp) |-> Lower(cp[i])]

\* "true" / "false" as code points
TrueCp  == <<116, 114, 117, 101>>
FalseCp == <<102, 97, 108, 115, 101>>

RECURSIVE SkipDigits(_, _)
\* the first position at or after i that is not a digit
SkipDigits(cp, i) == IF i <= Len(cp) /\ Digit(cp[i]) THEN SkipDigits(cp, i + 1) ELSE i

SkipSign(cp, i) == IF i <= Len(cp) /\ cp[i] \in {43, 45} THEN i + 1 ELSE i

(* [+-] digits [. digits] [e [+-] digits], at least one digit in the mantissa *)
MantStart(cp) == SkipSign(cp, 1)
IntEnd(cp)    == SkipDigits(cp, MantStart(cp))
HasDot(cp)    == IntEnd(cp) <= Len(cp) /\ cp[IntEnd(cp)] = 46
FracStart(cp) == IF HasDot(cp) THEN IntEnd(cp) + 1 ELSE IntEnd(cp)
MantEnd(cp)   == IF HasDot(cp) THEN SkipDigits(cp, FracStart(cp)) ELSE IntEnd(cp)
MantDigits(cp) == SubSeq(cp, MantStart(cp), IntEnd(cp) - 1) \o SubSeq(cp, FracStart(cp), MantEnd(cp) - 1)
HasExp(cp)    == MantEnd(cp) <= Len(cp) /\ cp[MantEnd(cp)] \in {69, 101}
ExpStart(cp)  == SkipSign(cp, MantEnd(cp) + 1)
ExpEnd(cp)    == IF HasExp(cp) THEN SkipDigits(cp, ExpStart(cp)) ELSE MantEnd(cp)

DecimalSyntax(cp) ==
    /\ Len(MantDigits(cp)) > 0
    /\ HasExp(cp) => ExpEnd(cp) > ExpStart(cp)
    /\ ExpEnd(cp) = Len(cp) + 1

RECURSIVE StripZeros(_)
StripZeros(d) == IF d /= <<>> /\ Head(d) = 48 THEN StripZeros(Tail(d)) ELSE d

RECURSIVE NumOf(_)
NumOf(d) == IF d = <<>> THEN 0 ELSE NumOf(SubSeq(d, 1, Len(d) - 1)) * 10 + (d[Len(d)] - 48)

ExpDigits(cp) == IF HasExp(cp) THEN StripZeros(SubSeq(cp, ExpStart(cp), ExpEnd(cp) - 1)) ELSE <<>>
ExpNeg(cp)    == HasExp(cp) /\ cp[MantEnd(cp) + 1] = 45
\* exponents beyond six digits decide the magnitude whatever the mantissa
ExpHuge(cp)   == Len(ExpDigits(cp)) > 6
ExpVal(cp)    == IF ExpNeg(cp) THEN 0 - NumOf(ExpDigits(cp)) ELSE NumOf(ExpDigits(cp))

IsZeroMant(cp) == StripZeros(MantDigits(cp)) = <<>>
\* power of ten of the leading non-zero digit
LeadPower(cp) ==
    LET int == SubSeq(cp, MantStart(cp), IntEnd(cp) - 1)
        sig == StripZeros(int)
        frc == SubSeq(cp, FracStart(cp), MantEnd(cp) - 1)
    IN (IF sig /= <<>> THEN Len(sig) - 1 ELSE 0 - (Len(frc) - Len(StripZeros(frc))) - 1) + ExpVal(cp)

\* 2^1024 - 2^970, the least magnitude that rounds to infinity: 1.797693134862315807...e308
Limit == <<49, 55, 57, 55, 54, 57, 51, 49, 51, 52, 56, 54, 50, 51, 49, 53, 56, 48, 55>>
Nth(d, i) == IF i <= Len(d) THEN d[i] ELSE 48
RECURSIVE LexLess(_, _)
LexLess(d, i) ==
    IF i > Len(Limit) THEN FALSE
    ELSE IF Nth(d, i) # Limit[i] THEN Nth(d, i) < Limit[i]
    ELSE LexLess(d, i + 1)

FiniteDecimal(cp) ==
    /\ DecimalSyntax(cp)
    /\ \/ IsZeroMant(cp)
       \/ IF ExpHuge(cp) THEN ExpNeg(cp)
          ELSE \/ LeadPower(cp) < 308
               \/ LeadPower(cp) = 308 /\ LexLess(StripZeros(MantDigits(cp)), 1)

\* the one rule for automatic typing
AutoKind(cp) ==
    IF FiniteDecimal(cp) THEN "n"
    ELSE IF cp \in {TrueCp, FalseCp} THEN "b"
    ELSE "s"

\* an explicit boolean
BoolDigit(cp) == IF LowerAll(cp) \in {FalseCp, <<48>>, <<>>} THEN "0" ELSE "1"
=============================================================================
