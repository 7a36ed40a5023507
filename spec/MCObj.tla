------------------------------- MODULE MCObj -------------------------------
(***************************************************************************)
(* Every history of edits on every value up to a size, with all lookups    *)
(* after every edit.                                                       *)
(***************************************************************************)
EXTENDS EditValue, JsonWrite, JsonLarge, Json, SequencesExt
CONSTANTS Pool, MaxNodes, MaxOps, UseView, Share, Shares

A == <<"j", <<97>>>>
EscA == <<"j", <<BSL, 117, 48, 48, 54, 49>>>>
RawA == <<"r", <<97>>>>
NL == <<"j", <<BSL, 110>>>>
RawNL == <<"r", <<10>>>>
Empty == <<"j", <<>>>>
\* its text is the six characters \u0061
Looks == <<"r", <<92, 117, 48, 48, 54, 49>>>>
Leaves == CASE Pool = "kinds" -> {<<"null">>, <<"bool", TRUE>>, <<"num", <<48>>>>, <<"str", A>>, <<"str", NL>>, <<"str", RawNL>>}
            [] OTHER -> {<<"null">>, <<"num", <<49>>>>}
Keys == CASE Pool = "keys" -> {A, EscA, RawA, NL, RawNL, Empty, Looks, <<"j", <<65>>>>}
          [] OTHER -> {A, EscA}
Texts == CASE Pool = "keys" -> {<<97>>, <<10>>, <<>>, <<92, 110>>, <<92, 117, 48, 48, 54, 49>>, <<65>>, <<97, 97>>, <<98>>}
           [] Pool = "large" -> {<<107, 48>>, <<107, 49>>, <<107, 53>>, <<107, 56>>, <<107, 57>>, <<107, 49, 54>>, <<107, 49, 55>>, <<107, 51, 50>>, <<107, 52, 48>>, <<107>>}
           [] OTHER -> {<<97>>, <<98>>, <<>>}
NewValues == {<<"bool", FALSE>>, <<"obj", <<<<RawA, <<"num", <<50>>>>>>>>>>}
NewKeys == IF Pool = "large" THEN {<<"j", <<107, 53>>>>, <<"r", <<10>>>>} ELSE IF Pool = "keys" THEN {RawA, NL, Empty} ELSE {RawA, <<"j", <<98>>>>}
G == INSTANCE JsonGen
All == SetToSeq(IF Pool = "large" THEN {LgWideArr(17), LgWideArr(40), LgWideObj(9), LgWideObj(17), LgWideObj(40), LgDupObj(20, 6), LgDupObj(40, 33), LgEscObj(12), LgDeep(9), LgComb(4)} ELSE G!TreesUpTo(MaxNodes))

VARIABLES vT, vV, vHist
vars == <<vT, vV, vHist>>
Init == /\ vT \in LET all == All IN {all[j] : j \in {x \in 1..Len(all) : x % Shares = Share}}
        /\ vV = vT /\ vHist = <<>>

\* members or elements that may be added to a container
Additions(c) == IF c[1] = "arr" THEN NewValues ELSE {<<s, x>> : s \in NewKeys, x \in {<<"bool", FALSE>>}}
Ops == UNION {LET c == At(vV, p) z == IF IsContainer(c) THEN Len(c[2]) ELSE 0
                  xs == IF IsContainer(c) THEN Additions(c) ELSE {} IN
         {<<"set", p, x, None>> : x \in NewValues} \cup {<<"take", p, None, None>>}
         \cup (IF c[1] = "obj" THEN {<<"setkey", p, q, <<"bool", FALSE>>>> : q \in Texts} \cup {<<"rekey", p, q, s>> : q \in Texts, s \in NewKeys}
               ELSE {<<"setkey", p, <<97>>, <<"bool", FALSE>>>>, <<"rekey", p, <<97>>, RawA>>})
         \cup (IF ~IsContainer(c) THEN {} ELSE
               {<<"push", p, x, None>> : x \in xs} \cup {<<"insert", p, n, x>> : n \in 0..z, x \in xs}
               \cup {<<"remove", p, n, None>> : n \in 0..(z - 1)} \cup {<<"pop", p, None, None>>, <<"clear", p, None, None>>, <<"reverse", p, None, None>>}
               \cup {<<"swap", p, n, m>> : n, m \in 0..(z - 1)} \cup {<<"truncate", p, n, None>> : n \in 0..(z + 1)}
               \cup {<<"extend", p, <<x, y>>, None>> : x, y \in xs} \cup {<<"extend", p, <<>>, None>>})
       : p \in Places(vV)}
Next == /\ Len(vHist) < MaxOps
        /\ \E op \in IF Pool = "large" THEN {o \in Ops : Len(o[2]) < 2 /\ o[1] # "swap" /\ (o[2] = <<>> \/ o[1] \in {"set", "take"})} ELSE Ops : LET r == Apply(vV, op) IN
             /\ vV' = r[1]
             /\ vHist' = Append(vHist, <<op[1], op[2], op[3], op[4], r[2], r[1]>>)
             /\ UNCHANGED vT
Spec == Init /\ [][Next]_vars
View == IF UseView THEN <<vV, Len(vHist)>> ELSE <<vars>>

\* (checked where operations are applied)
Active == Len(vHist) < MaxOps
\* every generated operation is one
Possible == Active => \A op \in Ops : Legal(vV, op)
\* an edit leaves everything that is beside its place as it was, and puts there what it must
Frame == Active => \A op \in Ops : LET r == Apply(vV, op)[1] IN
  /\ \A p \in Places(vV) : ~IsPrefix(op[2], p) /\ ~IsPrefix(p, op[2]) => At(r, p) = At(vV, p)
  /\ \A p \in Places(vV) : IsPrefix(p, op[2]) /\ p # op[2] => At(r, p)[1] = At(vV, p)[1] /\ Len(At(r, p)[2]) = Len(At(vV, p)[2])
  /\ op[1] = "set" => At(r, op[2]) = op[3]
  /\ op[1] = "setkey" => (Child(At(vV, op[2]), <<"k", op[3]>>) # None) = (r # vV \/ Child(At(vV, op[2]), <<"k", op[3]>>) = op[4])
  /\ op[1] = "rekey" /\ At(vV, op[2])[1] = "obj" =>
       (\A j \in 1..Len(At(vV, op[2])[2]) : At(r, op[2])[2][j][2] = At(vV, op[2])[2][j][2])
\* lookups: the first match and nothing before it
First == Active => \A p \in Places(vV), q \in Texts : LET c == At(vV, p) n == IF c[1] = "obj" THEN FirstOf(c[2], q) ELSE 0 IN
  /\ (n = 0) = (Child(c, <<"k", q>>) = None)
  /\ n > 0 => StrText(c[2][n][1]) = q /\ \A j \in 1..(n - 1) : StrText(c[2][j][1]) # q

TextSeq == SetToSeq(Texts)
\* where each text is found in a value, -1 where there is nothing to find
Found(v) == [j \in 1..Len(TextSeq) |-> IF v[1] = "obj" THEN FirstOf(v[2], TextSeq[j]) - 1 ELSE -1]
\* a history with, after each step, the whole value and the lookups at the root and at the place of the edit
Vector(h) == [k |-> "O", t |-> vT, q |-> TextSeq, f |-> Found(vT),
              h |-> [j \in 1..Len(h) |-> h[j] \o <<Found(h[j][6]), Found(At(h[j][6], h[j][2]))>>]]
EmitHistory == IF UseView \/ Len(vHist') = MaxOps THEN PrintT(ToJson(Vector(vHist'))) ELSE TRUE
=============================================================================
