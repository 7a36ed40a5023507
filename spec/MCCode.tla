------------------------------- MODULE MCCode ------------------------------
(***************************************************************************)
(* Rows of exhaustive decoding tables, computed by the parser machine:     *)
(*  "u16"   what \uHHLL denotes, for every LL of a row HH (-1: refused)    *)
(*  "pairs" what \uHHHH\uLLLL denotes, a row per high surrogate            *)
(*  "utf8"  which three- and four-byte continuations of a lead byte are    *)
(*          well-formed                                                    *)
(***************************************************************************)
EXTENDS JsonStr, Json
CONSTANTS Table, Share, Shares, Stride

\* what a body denotes when it is one character, else -1
One(b) == LET p == ParseBody(b) IN IF p.m.st = "ok" THEN p.ev[1][5][1] ELSE -1

VARIABLES vI, vRow
vars == <<vI, vRow>>
Size == CASE Table = "u16" -> 256 [] Table = "pairs" -> 1024 [] OTHER -> 128
Rows == {r \in 0..(Size - 1) : r % Shares = Share}
Lows == {l \in 0..1023 : l % Stride = 0 \/ l \in {1, 511, 512, 1023}}
Init == vI \in Rows /\ vRow = <<>>
Tails == <<<<>>, <<128>>, <<191, 128>>, <<128, 191, 65>>, <<65>>, <<159, 127>>>>
U16Row(h) == [k |-> "U", h |-> h, r |-> [l \in 1..256 |-> One(UEsc(h * 256 + l - 1, l % 2 = 0))]]
LowSeq == LET RECURSIVE F(_)
              F(l) == IF l > 1023 THEN <<>> ELSE (IF l \in Lows THEN <<l>> ELSE <<>>) \o F(l + 1)
          IN F(0)
PairRow(h) == [k |-> "H", h |-> 55296 + h, l |-> [j \in 1..Len(LowSeq) |-> 56320 + LowSeq[j]],
               r |-> [j \in 1..Len(LowSeq) |-> One(UEsc(55296 + h, h % 2 = 0) \o UEsc(56320 + LowSeq[j], j % 2 = 0))]]
Utf8Row(l) == [k |-> "Y", l |-> 128 + l, tails |-> Tails,
               r |-> [t \in 1..Len(Tails) |->
                       [x \in 1..256 |-> LET b == <<128 + l, x - 1>> \o Tails[t] IN IF IsBody(b) THEN 1 ELSE 0]]]
Make == /\ vRow = <<>>
        /\ vRow' = <<CASE Table = "u16" -> U16Row(vI) [] Table = "pairs" -> PairRow(vI) [] OTHER -> Utf8Row(vI)>>
        /\ UNCHANGED vI
Spec == Init /\ [][Make]_vars
EmitRow == PrintT(ToJson(vRow'[1]))

Formula == vRow # <<>> =>
  LET q == vRow[1] IN
  CASE Table = "u16" -> \A l \in 1..256 : q.r[l] = IF IsSurrogate(vI * 256 + l - 1) THEN -1 ELSE vI * 256 + l - 1
    [] Table = "pairs" -> \A j \in 1..Len(q.l) : q.r[j] = SurrogatePair(q.h, q.l[j]) /\ IsScalar(q.r[j]) /\ q.r[j] >= 65536
    [] OTHER -> \A t \in 1..Len(Tails) : \A x \in 1..256 :
         (q.r[t][x] = 1) <=> LET b == <<128 + vI, x - 1>> \o Tails[t] IN
             Utf8Valid(b) /\ \A z \in 1..Len(b) : b[z] \notin {QUOTE, BSL} /\ b[z] >= 32
=============================================================================
