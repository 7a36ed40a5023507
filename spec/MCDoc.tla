------------------------------- MODULE MCDoc -------------------------------
(***************************************************************************)
(* Every history of cursor operations on every document up to a size:      *)
(* next, read a value, skip a value, clone.                                *)
(***************************************************************************)
EXTENDS JsonWrite, DocCursor, Json, SequencesExt
CONSTANTS MaxNodes, MaxOps,   \* MaxOps = 0: one more than the document has nodes
          Clones,             \* cursors at most
          UseView, Pool, Share, Shares

A == <<"j", <<97>>>>
Leaves == CASE Pool = "one" -> {<<"null">>}
            [] Pool = "str" -> {<<"num", <<49>>>>, <<"str", <<"j", <<BSL, 110>>>>>>}
            [] OTHER -> {<<"null">>, <<"bool", TRUE>>, <<"num", <<49>>>>, <<"str", A>>}
Keys == IF Pool = "str" THEN {A, <<"j", <<>>>>} ELSE {A}
G == INSTANCE JsonGen
All == SetToSeq(G!TreesUpTo(MaxNodes))

RECURSIVE NodesOf(_), NodesOfAll(_, _), NodesOfMembers(_, _)
NodesOf(t) == CASE t[1] = "arr" -> <<<<"arr", Len(t[2])>>>> \o NodesOfAll(t[2], 1)
                [] t[1] = "obj" -> <<<<"obj", Len(t[2])>>>> \o NodesOfMembers(t[2], 1)
                [] OTHER -> <<t>>
NodesOfAll(s, i) == IF i > Len(s) THEN <<>> ELSE NodesOf(s[i]) \o NodesOfAll(s, i + 1)
NodesOfMembers(s, i) == IF i > Len(s) THEN <<>> ELSE <<<<"str", s[i][1]>>>> \o NodesOf(s[i][2]) \o NodesOfMembers(s, i + 1)

\* the value that starts at a node
RECURSIVE ValueAt(_, _), ElemsAt(_, _, _), MembersAt(_, _, _)
After(nodes, i) == PastValue(nodes, [pos |-> i, owe |-> 0]).pos
ValueAt(nodes, i) == CASE nodes[i][1] = "arr" -> <<"arr", ElemsAt(nodes, i + 1, nodes[i][2])>>
                       [] nodes[i][1] = "obj" -> <<"obj", MembersAt(nodes, i + 1, nodes[i][2])>>
                       [] OTHER -> nodes[i]
ElemsAt(nodes, i, k) == IF k = 0 THEN <<>> ELSE <<ValueAt(nodes, i)>> \o ElemsAt(nodes, After(nodes, i), k - 1)
MembersAt(nodes, i, k) == IF k = 0 THEN <<>>
  ELSE <<<<nodes[i][2], ValueAt(nodes, i + 1)>>>> \o MembersAt(nodes, After(nodes, i + 1), k - 1)

VARIABLES vT, vNodes, vCur, vHist
vars == <<vT, vNodes, vCur, vHist>>
Init == /\ vT \in {All[k] : k \in {x \in 1..Len(All) : x % Shares = Share}}
        /\ vNodes = NodesOf(vT)
        /\ vCur = <<InitCursor>>
        /\ vHist = <<>>

Limit == IF MaxOps = 0 THEN Len(vNodes) + 1 ELSE MaxOps
More == Len(vHist) < Limit
Note(c, op, res, n) == vHist' = Append(vHist, <<c, op, Len(vNodes) + 1 - n.pos, res>>)
Node(c) == LET k == vCur[c] n == Advance(vNodes, k) IN
  /\ Note(c, "next", IF AtEnd(vNodes, k) THEN <<>> ELSE vNodes[k.pos], n)
  /\ vCur' = [vCur EXCEPT ![c] = n] /\ UNCHANGED <<vT, vNodes>>
Value(c) == LET k == vCur[c] n == PastValue(vNodes, k) IN
  /\ Note(c, "value", IF AtEnd(vNodes, k) THEN <<>> ELSE ValueAt(vNodes, k.pos), n)
  /\ vCur' = [vCur EXCEPT ![c] = n] /\ UNCHANGED <<vT, vNodes>>
Skip(c) == LET k == vCur[c] n == PastValue(vNodes, k) IN
  /\ Note(c, "skip", <<>>, n)
  /\ vCur' = [vCur EXCEPT ![c] = n] /\ UNCHANGED <<vT, vNodes>>
Clone(c) == /\ Len(vCur) < Clones
            /\ Note(c, "clone", <<>>, vCur[c])
            /\ vCur' = Append(vCur, vCur[c]) /\ UNCHANGED <<vT, vNodes>>
Next == More /\ \E c \in 1..Len(vCur) : Node(c) \/ Value(c) \/ Skip(c) \/ Clone(c)
Spec == Init /\ [][Next]_vars
View == IF UseView THEN <<vT, vCur>> ELSE <<vars>>

\* a cursor never owes anything between operations and stays in the list
Settled == \A c \in 1..Len(vCur) : vCur[c].owe = 0 /\ vCur[c].pos \in 1..(Len(vNodes) + 1)
\* positions are where the tree says
Aligned ==
  /\ ValueAt(vNodes, 1) = vT /\ Len(vNodes) = Size(vT)
  /\ \A c \in 1..Len(vCur) : ~AtEnd(vNodes, vCur[c]) =>
        /\ EndOf(vNodes, vCur[c].pos) = PastValue(vNodes, vCur[c]).pos
        /\ PastValue(vNodes, vCur[c]).pos = vCur[c].pos + Size(ValueAt(vNodes, vCur[c].pos))
        /\ NodesOf(ValueAt(vNodes, vCur[c].pos)) = SubSeq(vNodes, vCur[c].pos, PastValue(vNodes, vCur[c]).pos - 1)

Vector(h) == [k |-> "D", t |-> vT, x |-> CompactText(vT), h |-> h]
EmitHistory == IF UseView \/ Len(vHist') = Limit THEN PrintT(ToJson(Vector(vHist'))) ELSE TRUE
=============================================================================
