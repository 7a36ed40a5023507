------------------------------- MODULE MCTok -------------------------------
(***************************************************************************)
(* Every interleaving of peek, next and next-or-error over inputs made of  *)
(* lexical pieces, well-formed and broken ones.                            *)
(***************************************************************************)
EXTENDS TokCursor, Json, SequencesExt, FiniteSets
CONSTANTS Family, MaxPieces, MaxOps, UseView, Share, Shares

S(x) == <<QUOTE>> \o x \o <<QUOTE>>
Structure == {<<LBRACE>>, <<RBRACE>>, <<LBRACK>>, <<RBRACK>>, <<COMMA>>, <<COLON>>}
Literals == {<<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>, <<110, 117, 108, 108>>}
Good == Structure \cup Literals \cup {<<SP>>, <<LF, TAB>>, <<48>>, <<49, 50>>, <<45, 48, DOT, 53>>, <<49, 101, 43, 55>>, S(<<>>), S(<<97, SP>>),
         S(<<BSL, 110, 195, 169>>), S(<<BSL, 117, 100, 56, 51, 100, BSL, 117, 100, 101, 51, 57>>)}
Broken == {<<116, 114>>, <<110, 117, 108, 120>>, <<45>>, <<49, DOT>>, <<49, 101>>, <<49, 101, 43>>, <<QUOTE, 97>>, <<QUOTE, BSL>>, <<QUOTE, 10, QUOTE>>,
           <<QUOTE, BSL, 120, QUOTE>>, <<QUOTE, 195, 40, QUOTE>>, <<QUOTE, BSL, 117, 49>>, <<QUOTE, BSL, 117, 100, 56, 48, 48, QUOTE>>, <<97>>, <<0>>, <<239, 187, 191>>,
           <<PLUS, 49>>, <<DOT>>, <<48, 49>>, <<13>>, <<11>>, <<47, 47>>}
Few == {<<LBRACE>>, <<COLON>>, <<49>>, <<SP>>, S(<<97>>), <<116, 114, 117, 101>>, <<45>>, <<QUOTE>>}
\* every byte after a prefix that leaves the lexer in each of its states
Openings == {<<>>, <<45>>, <<48>>, <<49>>, <<49, DOT>>, <<49, DOT, 48>>, <<49, 101>>, <<49, 69, 45>>, <<48, 101, 50>>, <<116>>, <<116, 114, 117>>, <<102, 97>>,
             <<110, 117>>, <<QUOTE>>, <<QUOTE, BSL>>, <<QUOTE, BSL, 117>>, <<QUOTE, BSL, 117, 100>>, <<QUOTE, BSL, 117, 100, 56>>, <<QUOTE, BSL, 117, 48, 48, 54>>,
             <<QUOTE, BSL, 117, 100, 56, 48, 48>>, <<QUOTE, BSL, 117, 100, 56, 48, 48, BSL>>, <<QUOTE, 195>>, <<QUOTE, 224>>, <<QUOTE, 240>>, <<QUOTE, 244, 143>>,
             <<LBRACE>>, <<LBRACK, SP>>, <<123, 34, 97, 34>>}
Pieces == CASE Family = "all" -> Good \cup Broken [] Family = "good" -> Good [] OTHER -> Few
RECURSIVE Inputs(_)
Inputs(n) == IF n = 0 THEN {<<>>} ELSE LET p == Inputs(n - 1) IN p \cup {x \o y : x \in p, y \in Pieces}
Bytes == {p \o <<b>> \o q : p \in Openings, b \in 0..255, q \in {<<>>, <<SP, 49>>}}
AllInputs == SetToSeq(IF Family = "bytes" THEN Bytes ELSE Inputs(MaxPieces))

VARIABLES vInp, vT, vHist
vars == <<vInp, vT, vHist>>
Init == /\ vInp \in {AllInputs[k] : k \in {x \in 1..Len(AllInputs) : x % Shares = Share}}
        /\ vT = InitTok /\ vHist = <<>>
Op(o) == LET r == Do(o, vInp, vT) IN
  /\ ~vT.broken /\ Len(vHist) < MaxOps
  /\ vT' = r[2]
  /\ vHist' = Append(vHist, <<o, r[1], IF r[2].broken THEN -1 ELSE r[2].off>>)
  /\ UNCHANGED vInp
Next == \E o \in {"p", "n", "e"} : Op(o)
Spec == Init /\ [][Next]_vars
View == IF UseView THEN <<vInp, vT, IF vHist = <<>> THEN "" ELSE vHist[Len(vHist)][1]>> ELSE <<vars>>

Consumed == SelectSeq(vHist, LAMBDA h : h[2][1] = "tok")
\* interleaving does not matter: the tokens are those of a plain read from the start
RECURSIVE Plain(_, _)
Plain(c, n) == IF n = 0 THEN <<>>
               ELSE LET r == DoRead(vInp, c, FALSE) IN IF r[1][1] # "tok" THEN <<>> ELSE <<r[1]>> \o Plain(r[2], n - 1)
Independent == [j \in 1..Len(Consumed) |-> Consumed[j][2]] = Plain(InitTok, Len(Consumed))
\* tokens are in order, do not overlap, and only whitespace lies between them
Tiled == \A j \in 1..Len(Consumed) :
  LET a == IF j = 1 THEN 0 ELSE Consumed[j - 1][2][4]
      e == Consumed[j][2]
  IN a <= e[3] /\ e[3] < e[4] /\ e[4] <= Len(vInp) /\ \A q \in (a + 1)..e[3] : IsWs(vInp[q])
\* where the whole input is one text, its tokens are those the parser accepted
Offsets == vT.an <= vT.off /\ vT.off <= Len(vInp) /\ (vT.an < vT.off => \A q \in (vT.an + 1)..vT.off : IsWs(vInp[q]))

Vector(h) == [k |-> "K", in |-> vInp, h |-> h]
EmitHistory == IF UseView \/ Len(vHist') = MaxOps \/ vT'.broken THEN PrintT(ToJson(Vector(vHist'))) ELSE TRUE
=============================================================================
