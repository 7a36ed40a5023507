------------------------------- MODULE MCNum -------------------------------
(***************************************************************************)
(* Number literals read byte by byte, and what every integer conversion    *)
(* must make of them.                                                      *)
(***************************************************************************)
EXTENDS JsonNum, Json, SequencesExt
CONSTANTS Family,          \* "built": all literals over an alphabet up to MaxLen; "range": From..To with both signs; "edges"; "other"
          MaxLen, From, To, Share, Shares

RECURSIVE IntBytes(_)
IntBytes(k) == IF k < 0 THEN <<MINUS>> \o IntBytes(-k) ELSE IF k < 10 THEN <<48 + k>> ELSE Append(IntBytes(k \div 10), 48 + (k % 10))

Alphabet == {MINUS, 48, 49, 57, 53, DOT, 101, 69, PLUS}
\* around every bound: neighbours, one digit changed, one digit more or less, signs and suffixes
Bounds == {BoundU[w] : w \in Widths} \cup {BoundS[w] : w \in Widths}
RECURSIVE IncDigits(_)
IncDigits(d) == IF d = <<>> THEN <<1>> ELSE IF d[Len(d)] < 9 THEN [d EXCEPT ![Len(d)] = @ + 1] ELSE IncDigits(SubSeq(d, 1, Len(d) - 1)) \o <<0>>
Near(b) == {b, IncDigits(b), IncDigits(IncDigits(b)), DecDigits(b), DecDigits(DecDigits(b)), DecDigits(DecDigits(DecDigits(b)))}
Changed(b) == {[b EXCEPT ![k] = (@ + d) % 10] : k \in 1..Len(b), d \in {1, 9}}
Longer(b) == {b \o <<d>> : d \in 0..9} \cup {SubSeq(b, 1, Len(b) - 1)} \cup {<<1>> \o b, SubSeq(b, 2, Len(b))} \cup {b \o b, b \o b \o b \o b \o b}
             \cup {[k \in 1..n |-> 9] : n \in {Len(b) - 1, Len(b), Len(b) + 1}} \cup {<<1>> \o [k \in 1..n |-> 0] : n \in {Len(b) - 1, Len(b)}}
Proper(d) == DropZeros(d) = d /\ d # <<>>
Edge == {d \in UNION {Near(b) \cup Changed(b) \cup Longer(b) : b \in Bounds} : Proper(d)}
Endings == {<<>>, <<DOT, 48>>, <<DOT, 53>>, <<101, 48>>, <<69, PLUS, 50>>, <<101, MINUS, 49>>, <<DOT, 48, 101, 49>>}
Edges == {s \o Ascii(d) \o x : s \in {<<>>, <<MINUS>>}, d \in Edge, x \in {<<>>, <<DOT, 48>>, <<101, 48>>}}
         \cup {s \o Ascii(d) \o x : s \in {<<>>, <<MINUS>>}, d \in {b \in Bounds : TRUE} \cup {<<0>>, <<1>>, <<7>>}, x \in Endings}
\* texts whose root is not a number: no conversion returns anything
Others == {<<110, 117, 108, 108>>, <<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>, <<QUOTE, QUOTE>>, <<QUOTE, 49, QUOTE>>, <<QUOTE, MINUS, 48, QUOTE>>,
           <<QUOTE, 49, 46, 53, QUOTE>>, <<LBRACK, RBRACK>>, <<LBRACK, 49, RBRACK>>, <<LBRACE, RBRACE>>, <<LBRACE, QUOTE, 49, QUOTE, COLON, 49, RBRACE>>}

\* built literals grow along the lexer, so that only viable prefixes are extended
RECURSIVE Grow(_, _, _)
Grow(s, m, n) == {s} \cup (IF n = 0 THEN {} ELSE UNION {LET r == StepByte(m, b) IN IF Live(r) /\ r.out = <<>> THEN Grow(Append(s, b), r, n - 1) ELSE {} : b \in Alphabet})
Literals == CASE Family = "built" -> {s \in Grow(<<>>, InitMachine(DefaultCfg), MaxLen) : s # <<>> /\ IsNumber(s)}
              [] Family = "edges" -> Edges
              [] Family = "other" -> Others
              [] OTHER -> {}
AllLiterals == SetToSeq(Literals)

VARIABLES vLit, vAt, vSt
vars == <<vLit, vAt, vSt>>
Init == /\ vLit \in (IF Family = "range" THEN UNION {{IntBytes(x), <<MINUS>> \o IntBytes(x)} : x \in {y \in From..To : y % Shares = Share}}
                    ELSE LET all == AllLiterals IN {all[j] : j \in {x \in 1..Len(all) : x % Shares = Share}})
        /\ vAt = 0 /\ vSt = InitNum
Next == vAt < Len(vLit) /\ vAt' = vAt + 1 /\ vSt' = NumByte(vSt, vLit[vAt + 1]) /\ UNCHANGED vLit
Spec == Init /\ [][Next]_vars

Done == vAt = Len(vLit)
Known == {"u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"}
Bits == [t \in Known |-> CASE t \in {"u8", "i8"} -> 8 [] t \in {"u16", "i16"} -> 16 [] t \in {"u32", "i32"} -> 32 [] t \in {"u64", "i64"} -> 64 [] OTHER -> 128]
Fits(m, t) == IF t \in {"u8", "u16", "u32", "u64", "u128"} THEN FitsUnsigned(m, Bits[t]) ELSE FitsSigned(m, Bits[t])
Takes(m) == IF Family = "other" THEN {} ELSE {t \in Known : Fits(m, t)}

\* the literals are literals, and a magnitude never has a leading zero
WellFormed == Family # "other" /\ Done => IsNumber(vLit) /\ DropZeros(Magnitude(vSt)) = Magnitude(vSt)
\* widening keeps, narrowing loses; negative zero is only signed
Monotone == Done /\ Family # "other" =>
  /\ \A a, b \in Widths : a < b => (FitsUnsigned(vSt, a) => FitsUnsigned(vSt, b)) /\ (FitsSigned(vSt, a) => FitsSigned(vSt, b))
  /\ \A w \in Widths : FitsSigned(vSt, w) /\ ~vSt.neg => FitsUnsigned(vSt, w)
  /\ \A a, b \in Widths : a < b /\ FitsUnsigned(vSt, a) => FitsSigned(vSt, b)
  /\ vSt.neg => \A w \in Widths : ~FitsUnsigned(vSt, w)
\* small ones against ordinary arithmetic
RECURSIVE ValueOfDigits(_, _)
ValueOfDigits(d, acc) == IF d = <<>> THEN acc ELSE ValueOfDigits(Tail(d), acc * 10 + Head(d))
Native == Done /\ Family # "other" /\ WrittenAsInteger(vSt) /\ Len(vSt.ip) <= 9 =>
  LET m == ValueOfDigits(vSt.ip, 0) v == IF vSt.neg THEN -m ELSE m IN
  /\ FitsSigned(vSt, 8) = (v \in -128..127) /\ FitsSigned(vSt, 16) = (v \in -32768..32767) /\ FitsSigned(vSt, 32)
  /\ ~vSt.neg => FitsUnsigned(vSt, 8) = (v <= 255) /\ FitsUnsigned(vSt, 16) = (v <= 65535) /\ FitsUnsigned(vSt, 32)
\* incremental overflow: a conversion that stops vAt the first digit that does not fit decides the same
RECURSIVE Stops(_, _)
Stops(w, j) == IF j > Len(vSt.ip) THEN FALSE ELSE ~LtDigits(DropZeros(SubSeq(vSt.ip, 1, j)), BoundU[w]) \/ Stops(w, j + 1)
Incremental == Done /\ Family # "other" /\ WrittenAsInteger(vSt) /\ ~vSt.neg => \A w \in {8, 64} : FitsUnsigned(vSt, w) = ~Stops(w, 1)

Vector(m) == [k |-> "N", in |-> vLit, v |-> IF Family = "other" THEN <<>> ELSE Canonical(m), ty |-> SetToSeq(Takes(m))]
EmitDone == IF vAt' = Len(vLit) THEN PrintT(ToJson(Vector(vSt'))) ELSE TRUE
=============================================================================
