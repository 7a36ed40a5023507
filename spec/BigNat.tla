------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers beyond TLC's integers: sequences of limbs in base 1000, *)
(* least significant first, without leading zero limbs (0 is <<>>).        *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt
B == 1000

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))

\* limbs that may be too large, into limbs below the base
RECURSIVE Spill(_)
Spill(c) == IF c = 0 THEN <<>> ELSE <<c % B>> \o Spill(c \div B)
CarryIn(a, c0) == LET r == FoldLeft(LAMBDA x, l : LET v == l + x[1] IN <<v \div B, Append(x[2], v % B)>>, <<c0, <<>>>>, a)
                  IN r[2] \o Spill(r[1])
Carry(a) == Trim(CarryIn(a, 0))

Small(n) == Carry(<<n>>)
\* times a small number plus a small number (k * B + c within the integers)
TimesPlus(a, k, c) == Trim(CarryIn([i \in 1..Len(a) |-> a[i] * k], c))

\* sum of a[j] * b[n - j + 1]
Column(a, b, n) == LET lo == IF n > Len(b) THEN n - Len(b) + 1 ELSE 1
                       hi == IF n > Len(a) THEN Len(a) ELSE n
                   IN FoldLeft(LAMBDA x, j : x + a[j + lo - 1] * b[n - j - lo + 2], 0, [j \in 1..(hi - lo + 1) |-> j])
Times(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE Carry([n \in 1..(Len(a) + Len(b) - 1) |-> Column(a, b, n)])
Plus(a, b) == LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
                  at(s, i) == IF i > Len(s) THEN 0 ELSE s[i]
              IN Carry([i \in 1..n |-> at(a, i) + at(b, i)])

RECURSIVE CompareFrom(_, _, _)
CompareFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CompareFrom(a, b, i - 1)
\* -1, 0, 1
CompareNat(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CompareFrom(a, b, Len(a))

RECURSIVE PowersFrom(_, _, _)
PowersFrom(k, n, acc) == IF Len(acc) > n THEN acc ELSE PowersFrom(k, n, Append(acc, TimesPlus(acc[Len(acc)], k, 0)))
\* <<k^0, ..., k^n>>
Powers(k, n) == PowersFrom(k, n, <<<<1>>>>)

\* decimal digits (values), most significant first, without leading zeros
OfLimb(l) == <<l \div 100, (l \div 10) % 10, l % 10>>
DigitsFrom(a) == FoldRight(LAMBDA l, x : x \o OfLimb(l), a, <<>>)
DropZeros(d) == LET z == FoldLeft(LAMBDA x, v : IF x[2] /\ v = 0 THEN <<x[1] + 1, TRUE>> ELSE <<x[1], FALSE>>, <<0, TRUE>>, d)[1]
                IN SubSeq(d, z + 1, Len(d))
Digits(a) == DropZeros(DigitsFrom(a))
Nat10(d) ==
  LET n == Len(d) at(k) == IF k < 1 THEN 0 ELSE d[k]
  IN Trim([j \in 1..((n + 2) \div 3) |-> at(n - 3 * j + 1) * 100 + at(n - 3 * j + 2) * 10 + at(n - 3 * j + 3)])

\* a * 2^n and a * 5^n; 2^20 * B and 5^9 * B are within the integers
RECURSIVE Scale2(_, _)
Scale2(a, n) == IF n = 0 THEN a ELSE IF n >= 20 THEN Scale2(TimesPlus(a, 1048576, 0), n - 20) ELSE TimesPlus(a, 2 ^ n, 0)
RECURSIVE Scale5(_, _)
Scale5(a, n) == IF n = 0 THEN a ELSE IF n >= 9 THEN Scale5(TimesPlus(a, 1953125, 0), n - 9) ELSE TimesPlus(a, 5 ^ n, 0)

\* one less than a positive number
RECURSIVE Dec(_)
Dec(a) == Trim(IF a[1] > 0 THEN [a EXCEPT ![1] = @ - 1] ELSE <<999>> \o Dec(Tail(a)))

\* <<quotient, remainder>> by a small number
DivSmall(a, d) ==
  LET r == FoldRight(LAMBDA l, x : LET v == x[2] * B + l IN <<<<v \div d>> \o x[1], v % d>>, a, <<<<>>, 0>>)
  IN <<Trim(r[1]), r[2]>>
=============================================================================
