----------------------------- MODULE JsonValue -----------------------------
(***************************************************************************)
(* Values as the library holds them, parsed or built through the API:      *)
(*   <<"null">>  <<"bool", b>>  <<"num", bytes>>  <<"str", s>>             *)
(*   <<"arr", <<value, ...>>>>  <<"obj", <<<<s, value>>, ...>>>>           *)
(* where a string s is <<"j", body>> (it has a JSON form, spelled so) or   *)
(* <<"r", text>> (made from Rust text that has no JSON form yet).          *)
(***************************************************************************)
EXTENDS JsonStr, JsonTree, FiniteSets

StrText(s) == IF s[1] = "j" THEN TextOfBody(s[2]) ELSE s[2]

\* equality: same shape, same order, equally spelled numbers, equal texts
RECURSIVE SameValue(_, _)
SameValue(x, y) ==
  /\ x[1] = y[1]
  /\ CASE x[1] = "null" -> TRUE
       [] x[1] \in {"bool", "num"} -> x[2] = y[2]
       [] x[1] = "str" -> StrText(x[2]) = StrText(y[2])
       [] x[1] = "arr" -> Len(x[2]) = Len(y[2]) /\ \A i \in 1..Len(x[2]) : SameValue(x[2][i], y[2][i])
       [] OTHER -> Len(x[2]) = Len(y[2])
                   /\ \A i \in 1..Len(x[2]) : StrText(x[2][i][1]) = StrText(y[2][i][1])
                                              /\ SameValue(x[2][i][2], y[2][i][2])

\* the value a text denotes, from the delegate calls and the text itself
RECURSIVE ValueOf(_, _)
ValueOf(t, src) ==
  LET lit(e) == SubSeq(src, e[2] + 1, e[3]) IN
  CASE t[1] = "null" -> <<"null">>
    [] t[1] = "bool" -> <<"bool", t[2]>>
    [] t[1] = "num" -> <<"num", lit(t)>>
    [] t[1] = "str" -> <<"str", <<"j", lit(t)>>>>
    [] t[1] = "arr" -> <<"arr", TLCEval([i \in 1..Len(t[2]) |-> ValueOf(t[2][i], src)])>>
    [] OTHER -> <<"obj", TLCEval([i \in 1..Len(t[2]) |-> <<<<"j", lit(t[2][i][1])>>, ValueOf(t[2][i][2], src)>>])>>

\* the first member with that key, 0 if there is none
FirstOf(members, text) ==
  LET hits == {i \in 1..Len(members) : StrText(members[i][1]) = text}
  IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j

RECURSIVE Size(_), SizeAll(_, _), SizeMembers(_, _)
Size(t) == CASE t[1] = "arr" -> 1 + SizeAll(t[2], 1) [] t[1] = "obj" -> 1 + SizeMembers(t[2], 1) [] OTHER -> 1
SizeAll(s, i) == IF i > Len(s) THEN 0 ELSE Size(s[i]) + SizeAll(s, i + 1)
SizeMembers(s, i) == IF i > Len(s) THEN 0 ELSE 1 + Size(s[i][2]) + SizeMembers(s, i + 1)
=============================================================================
