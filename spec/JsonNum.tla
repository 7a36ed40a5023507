------------------------------ MODULE JsonNum ------------------------------
(***************************************************************************)
(* What a number literal means.  A machine reads the literal byte by byte  *)
(* and keeps its parts:                                                    *)
(*   [ph, neg, ip, fp, eneg, ed]  phase, sign, integer digits, fraction    *)
(*   digits, exponent sign, exponent digits                                *)
(* An integer conversion may use the literal only if it has neither        *)
(* fraction nor exponent, and returns the integer exactly or nothing.      *)
(***************************************************************************)
EXTENDS JsonText, BigNat
LOCAL INSTANCE SequencesExt

InitNum == [ph |-> "int", neg |-> FALSE, ip |-> <<>>, fp |-> <<>>, eneg |-> FALSE, ed |-> <<>>]
NumByte(n, b) ==
  CASE IsDigit(b) -> (CASE n.ph = "int" -> [n EXCEPT !.ip = Append(@, b - 48)]
                        [] n.ph = "frac" -> [n EXCEPT !.fp = Append(@, b - 48)]
                        [] OTHER -> [n EXCEPT !.ed = Append(@, b - 48)])
    [] b = DOT -> [n EXCEPT !.ph = "frac"]
    [] IsE(b) -> [n EXCEPT !.ph = "exp"]
    [] b = MINUS -> IF n.ph = "int" THEN [n EXCEPT !.neg = TRUE] ELSE [n EXCEPT !.eneg = TRUE]
    [] OTHER -> n                       \* plus
NumOf(s) == FoldLeft(NumByte, InitNum, s)
IsNumber(s) == LET p == Parse(s, DefaultCfg) IN p.m.st = "ok" /\ Len(p.ev) = 1 /\ p.ev[1] = <<"num", 0, Len(s)>>

WrittenAsInteger(n) == n.ph = "int"
Magnitude(n) == DropZeros(n.ip)         \* decimal digits

\* ---------------------------------------------------------------- widths
Widths == {8, 16, 32, 64, 128}
Pow2To128 == Powers(2, 128)
P2(k) == Digits(Pow2To128[k + 1])
RECURSIVE DecDigits(_)                  \* digits of the number before
DecDigits(d) == IF d[Len(d)] > 0 THEN [d EXCEPT ![Len(d)] = @ - 1]
                ELSE DecDigits(SubSeq(d, 1, Len(d) - 1)) \o <<9>>
LtDigits(a, b) ==                       \* no leading zeros
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
\* magnitudes at and above the bound do not fit
BoundU == [w \in Widths |-> P2(w)]
BoundS == [w \in Widths |-> P2(w - 1)]
FitsUnsigned(n, w) == WrittenAsInteger(n) /\ ~n.neg /\ LtDigits(Magnitude(n), BoundU[w])
FitsSigned(n, w) == WrittenAsInteger(n)
                    /\ \/ LtDigits(Magnitude(n), BoundS[w])
                       \/ n.neg /\ Magnitude(n) = BoundS[w]
\* the integer, written canonically
Ascii(d) == [k \in 1..Len(d) |-> d[k] + 48]
Canonical(n) == LET m == Magnitude(n) IN
  IF m = <<>> THEN <<48>> ELSE (IF n.neg THEN <<MINUS>> ELSE <<>>) \o Ascii(m)
=============================================================================
