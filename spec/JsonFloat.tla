----------------------------- MODULE JsonFloat -----------------------------
(***************************************************************************)
(* What converting a number literal to a binary floating point value must  *)
(* give: the representable value nearest to the literal's exact decimal    *)
(* value, ties to the even significand, infinity from half a unit above    *)
(* the largest value on, the sign kept.                                    *)
(*                                                                         *)
(* A finite value is [neg, m, q]: +-m * 2^q with a bignum m.  The relation *)
(* is stated with the two midpoints around the value and decided in exact  *)
(* integer arithmetic; no rounding algorithm is involved.                  *)
(***************************************************************************)
EXTENDS JsonNum

Format == [w \in {32, 64} |->
             IF w = 64 THEN [p |-> 53, qmin |-> -1074, qmax |-> 971, ebits |-> 11] ELSE [p |-> 24, qmin |-> -149, qmax |-> 104, ebits |-> 8]]
TwoToThe(k) == Scale2(<<1>>, k)
Normal(w) == TwoToThe(Format[w].p - 1)            \* the smallest normal significand
Beyond(w) == TwoToThe(Format[w].p)
One == <<1>>
Twice(m) == TimesPlus(m, 2, 0)

\* ------------------------------------------------- the literal's exact value
\* |x| = [d, e]: a bignum times a power of ten; huge exponents are clamped
RECURSIVE Int7(_, _)
Int7(d, acc) == IF d = <<>> THEN acc ELSE Int7(Tail(d), acc * 10 + d[1])
ExpOf(n) == LET d == DropZeros(n.ed)
                v == IF Len(d) > 7 THEN 99999999 ELSE Int7(d, 0)
            IN IF n.eneg THEN -v ELSE v
Exact(n) == [d |-> DropZeros(n.ip \o n.fp), e |-> ExpOf(n) - Len(n.fp)]
\* beyond 10^400 everything is infinite, below 10^-400 everything is zero
IsZero(x) == x.d = <<>>
IsHuge(x) == ~IsZero(x) /\ Len(x.d) - 1 + x.e >= 400
IsTiny(x) == ~IsZero(x) /\ Len(x.d) + x.e <= -400

\* compare d * 10^e with m * 2^k: -1, 0, 1 (d as a bignum)
CompareTo(d, e, m, k) ==
  LET a == IF e > 0 THEN Scale5(d, e) ELSE d
      b == IF e < 0 THEN Scale5(m, -e) ELSE m
  IN IF e > k THEN CompareNat(Scale2(a, e - k), b) ELSE CompareNat(a, Scale2(b, k - e))

\* the midpoints around m * 2^q
Upper(m) == [m |-> Plus(Twice(m), One), dq |-> -1]
Lower(w, m, q) == IF m = Normal(w) /\ q > Format[w].qmin
                  THEN [m |-> Dec(Twice(Twice(m))), dq |-> -2]
                  ELSE [m |-> Dec(Twice(m)), dq |-> -1]
Even(m) == m = <<>> \/ m[1] % 2 = 0

Canon(w, m, q) == /\ q >= Format[w].qmin /\ q <= Format[w].qmax
                  /\ CompareNat(m, Beyond(w)) < 0
                  /\ CompareNat(m, Normal(w)) >= 0 \/ q = Format[w].qmin

\* is the finite m * 2^q the right result for d * 10^e
NearestFinite(w, x, m, q) ==
  IF IsZero(x) \/ IsTiny(x) THEN m = <<>>
  ELSE IF IsHuge(x) THEN FALSE
  ELSE LET d == Nat10(x.d)
           u == Upper(m)
           cu == CompareTo(d, x.e, u.m, q + u.dq)
       IN /\ cu < 0 \/ (cu = 0 /\ Even(m))
          /\ \/ m = <<>>
             \/ LET l == Lower(w, m, q) cl == CompareTo(d, x.e, l.m, q + l.dq) IN cl > 0 \/ (cl = 0 /\ Even(m))
\* is infinity
NearestInfinite(w, x) ==
  IF IsZero(x) \/ IsTiny(x) THEN FALSE
  ELSE IF IsHuge(x) THEN TRUE
  ELSE CompareTo(Nat10(x.d), x.e, Dec(TwoToThe(Format[w].p + 1)), Format[w].qmax - 1) >= 0

\* ------------------------------------------------------------ bit patterns
\* a result is [neg, kind: "fin" | "inf" | "nan", m, q]
RECURSIVE FromBytes(_, _)
FromBytes(b, acc) == IF b = <<>> THEN acc ELSE FromBytes(Tail(b), TimesPlus(acc, 256, b[1]))
OfBits(w, b) ==                                   \* most significant byte first
  LET f == Format[w]
      top == b[1] * 256 + b[2]
      neg == top >= 32768
      fieldbits == 15 - f.ebits                   \* fraction bits in the first two bytes
      expo == (top % 32768) \div (2 ^ fieldbits)
      frac == FromBytes(SubSeq(b, 3, Len(b)), Trim(<<top % (2 ^ fieldbits)>>))
  IN IF expo = 2 ^ f.ebits - 1 THEN [neg |-> neg, kind |-> IF frac = <<>> THEN "inf" ELSE "nan", m |-> <<>>, q |-> 0]
     ELSE IF expo = 0 THEN [neg |-> neg, kind |-> "fin", m |-> frac, q |-> f.qmin]
     ELSE [neg |-> neg, kind |-> "fin", m |-> Plus(Normal(w), frac), q |-> f.qmin + expo - 1]
RECURSIVE LowBytes(_, _, _)
LowBytes(m, n, acc) == IF n = 0 THEN <<m, acc>> ELSE LET d == DivSmall(m, 256) IN LowBytes(d[1], n - 1, <<d[2]>> \o acc)
ToBits(w, r) ==
  LET f == Format[w]
      low == LowBytes(r.m, IF w = 64 THEN 6 ELSE 2, <<>>)
      fieldbits == 15 - f.ebits
      high == IF low[1] = <<>> THEN 0 ELSE low[1][1]          \* what is left is small
      normal == r.kind = "fin" /\ CompareNat(r.m, Normal(w)) >= 0
      expo == IF r.kind = "inf" THEN 2 ^ f.ebits - 1 ELSE IF normal THEN r.q - f.qmin + 1 ELSE 0
      top == (IF r.neg THEN 32768 ELSE 0) + expo * (2 ^ fieldbits) + (high % (2 ^ fieldbits))
  IN <<top \div 256, top % 256>> \o (IF r.kind = "inf" THEN [j \in 1..(IF w = 64 THEN 6 ELSE 2) |-> 0] ELSE low[2])

\* the property: a conversion of the literal may return exactly this
RightFloat(w, n, r) ==
  /\ r.neg = n.neg
  /\ CASE r.kind = "fin" -> NearestFinite(w, Exact(n), r.m, r.q)
       [] r.kind = "inf" -> NearestInfinite(w, Exact(n))
       [] OTHER -> FALSE
=============================================================================
