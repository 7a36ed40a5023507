------------------------------ MODULE MCFloat ------------------------------
(***************************************************************************)
(* Literals built from representable values: the value itself, the         *)
(* midpoint above it, and the midpoint moved by one unit in an appended    *)
(* digit, in several spellings.  The expected result is known by           *)
(* construction; the relation of JsonFloat must accept it and reject the   *)
(* neighbours.                                                             *)
(***************************************************************************)
EXTENDS JsonFloat, Json, SequencesExt
CONSTANTS Width, Rich, Share, Shares

f == Format[Width]
N == Normal(Width)
Bn == Beyond(Width)
\* significands
Subnormal == {<<>>, <<1>>, <<2>>, <<3>>, Dec(N), Dec(Dec(N)), Trim(DivSmall(N, 2)[1])}
Pattern(k) == Plus(N, DivSmall(N, k)[1])
Significands == {N, Plus(N, One), Plus(N, <<2>>), Dec(Bn), Dec(Dec(Bn)), Pattern(2), Pattern(3), Pattern(5), Dec(Pattern(2))}
                \cup (IF Rich THEN {Pattern(k) : k \in {7, 9, 11, 13, 17, 100, 333, 999}} \cup {Dec(Pattern(k)) : k \in {4, 7, 11}} ELSE {})
Scales == {f.qmin, f.qmin + 1, f.qmin + 2, -f.p, 1 - f.p, 2 - f.p, -1, 0, 1, 2, f.qmax - 1, f.qmax}
          \cup (IF Width = 64 THEN {-1000, -350, -127, -70, -30, 11, 12, 75, 200, 600} \cup (IF Rich THEN {10 * j : j \in -105..95} ELSE {})
                ELSE {-120, -60, -30, -12, 9, 30, 70} \cup (IF Rich THEN {3 * j : j \in -48..34} ELSE {}))
Values == {[m |-> m, q |-> f.qmin] : m \in Subnormal} \cup {[m |-> m, q |-> q] : m \in Significands, q \in Scales}

\* the next value up
Above(v) == LET u == Plus(v.m, One) IN
  IF u = Bn THEN (IF v.q = f.qmax THEN [kind |-> "inf", m |-> <<>>, q |-> 0] ELSE [kind |-> "fin", m |-> N, q |-> v.q + 1])
  ELSE [kind |-> "fin", m |-> u, q |-> v.q]
Fin(v) == [kind |-> "fin", m |-> v.m, q |-> v.q]
Below(v) == IF v.m = N /\ v.q > f.qmin THEN [kind |-> "fin", m |-> Dec(Bn), q |-> v.q - 1] ELSE [kind |-> "fin", m |-> Dec(v.m), q |-> v.q]

Points == {"exact", "mid", "midless", "midmore"}
\* m * 2^q in decimal: digits and exponent
Decimal(m, q) == IF q >= 0 THEN [d |-> Digits(Scale2(m, q)), e |-> 0] ELSE [d |-> Digits(Scale5(m, -q)), e |-> q]
PointOf(v, pt) == LET mid == Decimal(Upper(v.m).m, v.q - 1) IN
  CASE pt = "exact" -> Decimal(v.m, v.q)
    [] pt = "mid" -> mid
    [] pt = "midmore" -> [d |-> mid.d \o <<0, 1>>, e |-> mid.e - 2]
    [] OTHER -> [d |-> DecDigits(mid.d \o <<0>>), e |-> mid.e - 1]
Expected(v, pt) == CASE pt \in {"exact", "midless"} -> Fin(v)
                     [] pt = "midmore" -> Above(v)
                     [] OTHER -> IF Even(v.m) THEN Fin(v) ELSE Above(v)

\* -------------------------------------------------------------- spellings
RECURSIVE IntBytes(_)
IntBytes(k) == IF k < 0 THEN <<MINUS>> \o IntBytes(-k) ELSE IF k < 10 THEN <<48 + k>> ELSE Append(IntBytes(k \div 10), 48 + (k % 10))
Zeros(k) == [j \in 1..k |-> 48]
Spellings == {"plain", "exp", "sci", "zeros", "upper", "shifted"}
Spell(x, form) ==
  LET d == DropZeros(x.d)
      a == IF d = <<>> THEN <<48>> ELSE Ascii(d)
      k == Len(a)
      plain == IF d = <<>> THEN <<48>>
               ELSE IF x.e >= 0 THEN a \o Zeros(x.e)
               ELSE IF -x.e < k THEN SubSeq(a, 1, k + x.e) \o <<DOT>> \o SubSeq(a, k + x.e + 1, k)
               ELSE <<48, DOT>> \o Zeros(-x.e - k) \o a
  IN CASE form = "plain" -> plain
       [] form = "exp" -> a \o <<101>> \o IntBytes(x.e)
       [] form = "sci" -> <<a[1]>> \o (IF k > 1 THEN <<DOT>> \o Tail(a) ELSE <<>>) \o <<69>> \o (IF x.e + k - 1 >= 0 THEN <<PLUS>> ELSE <<>>) \o IntBytes(x.e + k - 1)
       [] form = "zeros" -> (IF \E j \in 1..Len(plain) : plain[j] = DOT THEN plain ELSE plain \o <<DOT>>) \o Zeros(25)
       [] form = "upper" -> a \o <<DOT, 48, 48, 69>> \o (IF x.e < 0 THEN <<MINUS, 48, 48>> \o IntBytes(-x.e) ELSE <<PLUS, 48, 48, 48>> \o IntBytes(x.e))
       [] OTHER -> <<48, DOT>> \o Zeros(30) \o a \o <<101>> \o IntBytes(x.e + 30 + k)

\* literals that are beyond everything
Extra == LET l(s, neg, kind) == [lit |-> s, neg |-> neg, kind |-> kind] IN
  {l((IF neg THEN <<MINUS>> ELSE <<>>) \o x[1], neg, x[2]) : neg \in BOOLEAN,
     x \in {<<<<48>>, "zero">>, <<<<48, DOT, 48>>, "zero">>, <<<<48, 101, 57, 57, 57, 57>>, "zero">>, <<<<48, DOT, 48, 48, 69, MINUS, 49>>, "zero">>,
            <<<<48, 101>> \o Zeros(30) \o <<57>>, "zero">>, <<<<48, DOT>> \o Zeros(900) \o <<49>>, "zero">>,
            <<<<49, 101, 57, 57, 57, 57>>, "inf">>, <<<<49, 101, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>, "inf">>,
            <<<<49, 101, MINUS, 57, 57, 57, 57>>, "zero">>, <<<<49, 101, MINUS, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>, "zero">>,
            <<<<49, 101, 49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 54>>, "inf">>,
            <<<<49, 101, MINUS, 49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 54>>, "zero">>,
            <<<<49>> \o Zeros(450), "inf">>, <<<<49>> \o Zeros(450) \o <<101, MINUS, 52, 53, 48>>, "one">>, <<<<48, DOT>> \o Zeros(449) \o <<49, 101, 52, 53, 48>>, "one">>,
            <<[j \in 1..400 |-> 57] \o <<101, MINUS, 52, 48, 48>>, "one">>}}

AllValues == SetToSeq(Values)
VARIABLES vPh, vWhat, vPoint, vForm, vNeg, vLit, vWant
vars == <<vPh, vWhat, vPoint, vForm, vNeg, vLit, vWant>>
Zero == [m |-> <<>>, q |-> f.qmin]
Forms(v) == IF Rich THEN Spellings ELSE {"plain", "exp", "sci"} \cup (IF v.q \in {f.qmin, 0, 1} THEN Spellings ELSE {})
Init == /\ vPh = "pick" /\ vLit = <<>> /\ vWant = Zero
        /\ vWhat \in LET all == AllValues IN {all[j] : j \in {x \in 1..Len(all) : x % Shares = Share}}
        /\ vPoint \in Points /\ vForm = "none" /\ vNeg \in BOOLEAN
\* (the negative twins of only some spellings, to halve the work)
Write == /\ vPh = "pick"
         /\ vForm' \in IF vNeg THEN {"sci"} ELSE Forms(vWhat)
         /\ vLit' = (IF vNeg THEN <<MINUS>> ELSE <<>>) \o Spell(PointOf(vWhat, vPoint), vForm')
         /\ vWant' = [neg |-> vNeg] @@ Expected(vWhat, vPoint)
         /\ vPh' = "done" /\ UNCHANGED <<vWhat, vPoint, vNeg>>
OneOf == [kind |-> "fin", m |-> N, q |-> 1 - f.p]
More == /\ vPh = "pick" /\ Share = 0 /\ vWhat = AllValues[Shares] /\ vPoint = "exact"
        /\ \E x \in Extra : /\ x.neg = vNeg /\ vLit' = x.lit
                            /\ vWant' = [neg |-> vNeg] @@ (CASE x.kind = "inf" -> [kind |-> "inf", m |-> <<>>, q |-> 0]
                                                           [] x.kind = "one" -> OneOf
                                                           [] OTHER -> Fin(Zero))
        /\ vForm' = "extra" /\ vPh' = "done" /\ UNCHANGED <<vWhat, vPoint, vNeg>>
Next == Write \/ More
Spec == Init /\ [][Next]_vars

Done == vPh = "done"
\* a literal of the grammar, and the relation accepts what construction says
Accepted == Done => IsNumber(vLit) /\ RightFloat(Width, NumOf(vLit), vWant)
\* and nothing else: not the neighbours, not the other sign
Rejected == Done /\ vForm \in {"exp", "extra"} =>
  LET n == NumOf(vLit) r(x) == RightFloat(Width, n, [neg |-> vNeg] @@ x) w == [kind |-> vWant.kind, m |-> vWant.m, q |-> vWant.q] IN
  /\ ~RightFloat(Width, n, [vWant EXCEPT !.neg = ~vNeg])
  /\ vWant.kind = "fin" => ~r(Above(vWant)) /\ (vWant.m # <<>> => ~r(Below(vWant)))
  /\ vWant.kind = "inf" => ~r([kind |-> "fin", m |-> Dec(Bn), q |-> f.qmax])
\* results are canonical and bit patterns are read back
Bits == Done => /\ vWant.kind = "fin" => Canon(Width, vWant.m, vWant.q)
                /\ OfBits(Width, ToBits(Width, vWant)) = [neg |-> vWant.neg, kind |-> vWant.kind, m |-> vWant.m, q |-> vWant.q]
Vector == [k |-> "F", in |-> vLit', w |-> Width, bits |-> ToBits(Width, vWant')]
EmitDone == PrintT(ToJson(Vector))
=============================================================================
