----------------------------- MODULE EditValue -----------------------------
(***************************************************************************)
(* Looking things up in a value and editing it, as operations on lists.    *)
(*                                                                         *)
(* A path is a sequence of steps into a value:                             *)
(*   <<"k", text>>  the first member with that key   <<"i", n>>  element n *)
(*   <<"e", n>>     the value of member n                  (n from 0)      *)
(* An operation is <<name, path, argument, argument>>:                     *)
(*   set v | take | push x | insert n x | remove n | pop | swap n m        *)
(*   | clear | truncate n | extend xs | reverse                            *)
(*   | setkey text v | rekey text s                                        *)
(* where x is a value (in an array) or a member <<s, value>> (in an        *)
(* object).  Apply gives <<the value afterwards, what was returned>>.      *)
(***************************************************************************)
EXTENDS JsonValue

None == <<"none">>
Child(v, s) ==
  CASE s[1] = "k" /\ v[1] = "obj" -> LET n == FirstOf(v[2], s[2]) IN IF n = 0 THEN None ELSE v[2][n][2]
    [] s[1] = "e" /\ v[1] = "obj" -> IF s[2] < Len(v[2]) THEN v[2][s[2] + 1][2] ELSE None
    [] s[1] = "i" /\ v[1] = "arr" -> IF s[2] < Len(v[2]) THEN v[2][s[2] + 1] ELSE None
    [] OTHER -> None
RECURSIVE At(_, _)
At(v, path) == IF path = <<>> \/ v = None THEN v ELSE At(Child(v, path[1]), Tail(path))
\* the place of a step that leads somewhere
Place(v, s) == IF s[1] = "k" THEN FirstOf(v[2], s[2]) ELSE s[2] + 1
RECURSIVE Put2(_, _, _)
Put2(v, path, new) ==
  IF path = <<>> THEN new
  ELSE LET n == Place(v, path[1]) c == Put2(Child(v, path[1]), Tail(path), new) IN
       IF v[1] = "obj" THEN [v EXCEPT ![2][n] = <<@[1], c>>] ELSE [v EXCEPT ![2][n] = c]

IsContainer(v) == v[1] \in {"arr", "obj"}
Without(s, n) == SubSeq(s, 1, n) \o SubSeq(s, n + 2, Len(s))      \* n from 0
With(s, n, x) == SubSeq(s, 1, n) \o <<x>> \o SubSeq(s, n + 1, Len(s))
Backwards(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]

\* what the operation makes of the container (or value) it is applied to
Effect(v, op) ==
  LET l == v[2] list(s) == <<v[1], s>> n == op[3] IN
  CASE op[1] = "set" -> <<op[3], None>>
    [] op[1] = "take" -> <<<<"null">>, v>>
    [] op[1] = "push" -> <<list(Append(l, op[3])), None>>
    [] op[1] = "insert" -> <<list(With(l, n, op[4])), None>>
    [] op[1] = "remove" -> <<list(Without(l, n)), l[n + 1]>>
    [] op[1] = "pop" -> IF l = <<>> THEN <<v, None>> ELSE <<list(SubSeq(l, 1, Len(l) - 1)), l[Len(l)]>>
    [] op[1] = "swap" -> <<list([l EXCEPT ![n + 1] = l[op[4] + 1], ![op[4] + 1] = l[n + 1]]), None>>
    [] op[1] = "clear" -> <<list(<<>>), None>>
    [] op[1] = "truncate" -> <<list(SubSeq(l, 1, IF n < Len(l) THEN n ELSE Len(l))), None>>
    [] op[1] = "extend" -> <<list(l \o op[3]), None>>
    [] op[1] = "reverse" -> <<list(Backwards(l)), None>>
    \* through the key: nothing happens when it is not there
    [] op[1] = "setkey" -> LET i == IF v[1] = "obj" THEN FirstOf(l, n) ELSE 0 IN
                           IF i = 0 THEN <<v, None>> ELSE <<list([l EXCEPT ![i] = <<@[1], op[4]>>]), l[i][2]>>
    [] op[1] = "rekey" -> LET i == IF v[1] = "obj" THEN FirstOf(l, n) ELSE 0 IN
                          IF i = 0 THEN <<v, None>> ELSE <<list([l EXCEPT ![i] = <<op[4], @[2]>>]), l[i][2]>>
Apply(v, op) == LET e == Effect(At(v, op[2]), op) IN <<Put2(v, op[2], e[1]), e[2]>>

\* does the operation make sense there (a Vec would panic otherwise)
Legal(v, op) ==
  LET c == At(v, op[2]) IN
  /\ c # None
  /\ CASE op[1] \in {"set", "take"} -> TRUE
       [] op[1] \in {"setkey", "rekey"} -> TRUE
       [] ~IsContainer(c) -> FALSE
       [] op[1] = "insert" -> op[3] <= Len(c[2])
       [] op[1] = "remove" -> op[3] < Len(c[2])
       [] op[1] = "swap" -> op[3] < Len(c[2]) /\ op[4] < Len(c[2])
       [] OTHER -> TRUE

\* every place in a value, by positions
RECURSIVE Places(_)
Places(v) == {<<>>} \cup (IF ~IsContainer(v) THEN {}
   ELSE UNION {LET step == <<IF v[1] = "arr" THEN "i" ELSE "e", j - 1>>
               IN {<<step>> \o q : q \in Places(IF v[1] = "arr" THEN v[2][j] ELSE v[2][j][2])} : j \in 1..Len(v[2])})
=============================================================================
