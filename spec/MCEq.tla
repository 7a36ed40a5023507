------------------------------- MODULE MCEq --------------------------------
(* Equality of every pair of values up to a size, over leaves that differ  *)
(* in spelling, in text and in type.                                       *)
EXTENDS JsonWrite, JsonLarge, Json, SequencesExt
CONSTANTS Pool, MaxNodes, Share, Shares
J1 == <<"j", <<97>>>>
J2 == <<"j", <<BSL, 117, 48, 48, 54, 49>>>>
R1 == <<"r", <<10>>>>
J3 == <<"j", <<BSL, 110>>>>
J4 == <<"j", <<BSL, 117, 48, 48, 48, 65>>>>
J5 == <<"j", <<110>>>>
Leaves == CASE Pool = "leaves" ->
   {<<"null">>, <<"bool", TRUE>>, <<"bool", FALSE>>, <<"num", <<49>>>>, <<"num", <<49, 46, 48>>>>, <<"num", <<45, 48>>>>, <<"num", <<48>>>>,
    <<"num", <<49, 101, 48>>>>, <<"num", <<49, 69, 48>>>>,
    <<"str", J1>>, <<"str", J2>>, <<"str", R1>>, <<"str", J3>>, <<"str", J4>>, <<"str", J5>>, <<"str", <<"j", <<>>>>>>, <<"str", <<"j", <<49>>>>>>}
  [] OTHER -> {<<"null">>, <<"str", J1>>}
Keys == IF Pool = "leaves" THEN {J1, J2, R1, J3} ELSE {J1, <<"j", <<98>>>>}
G == INSTANCE JsonGen
All == SetToSeq(IF Pool = "large" THEN LgLate ELSE G!TreesUpTo(MaxNodes))
VARIABLES vI, vRow
vars == <<vI, vRow>>
Init == vI \in {x \in 1..Len(All) : x % Shares = Share} /\ vRow = <<>>
Row(k) == [j \in 1..Len(All) |-> IF SameValue(All[k], All[j]) THEN 1 ELSE 0]
Make == vRow = <<>> /\ vRow' = Row(vI) /\ UNCHANGED vI
Spec == Init /\ [][Make]_vars
\* an equivalence; the nodes of equal values are pairwise equal
Laws == vRow # <<>> => vRow[vI] = 1 /\ \A j \in 1..Len(All) : vRow[j] = 1 =>
            SameValue(All[j], All[vI]) /\ Size(All[j]) = Size(All[vI])
Texts == [j \in 1..Len(All) |-> CompactText(All[j])]
EmitRow == PrintT(ToJson([k |-> "E", i |-> vI, ts |-> All, xs |-> Texts, r |-> vRow']))
=============================================================================
