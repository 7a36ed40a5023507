------------------------------ MODULE MCWrite ------------------------------
(***************************************************************************)
(* The writing machine on every value up to a size, with a destination     *)
(* that may refuse at any write; and the vectors replayed into the         *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS JsonWrite, JsonLarge, Json, SequencesExt
CONSTANTS Pool, MaxNodes, Share, Shares

A == <<"j", <<97>>>>
EscA == <<"j", <<BSL, 117, 48, 48, 54, 49>>>>
Leaves == CASE Pool = "shapes" -> {<<"null">>, <<"num", <<49>>>>}
            [] Pool = "leaves" -> {<<"null">>, <<"bool", TRUE>>, <<"bool", FALSE>>, <<"num", <<45, 48>>>>, <<"num", <<49, 46, 53, 101, 43, 57>>>>,
                                   <<"str", A>>, <<"str", EscA>>, <<"str", <<"j", <<>>>>>>, <<"str", <<"r", <<10, 34, 31, 65536>>>>>>}
            [] OTHER -> {<<"bool", TRUE>>, <<"str", <<"r", <<92, 7, 0>>>>>>, <<"str", <<"j", <<BSL, 98, SLASH, 195, 169>>>>>>}
Keys == CASE Pool = "shapes" -> {A}
          [] Pool = "leaves" -> {A, <<"r", <<9, 97>>>>}
          [] OTHER -> {<<"j", <<>>>>, <<"r", <<92>>>>, EscA}
G == INSTANCE JsonGen

Modes == {CompactMode,
          PrettyMode(<<SP, SP>>, <<LF>>), PrettyMode(<<TAB>>, <<CR, LF>>), PrettyMode(<<>>, <<LF>>),
          PrettyMode(<<SP>>, <<>>), PrettyMode(<<45, 62>>, <<LF, LF>>)}
ModeSeq == SetToSeq(Modes)
IsWsMode(mo) == \A b \in {mo.ind[j] : j \in 1..Len(mo.ind)} \cup {mo.nl[j] : j \in 1..Len(mo.nl)} : IsWs(b)

VARIABLES vT, vW, vAcc, vFailed
vars == <<vT, vW, vAcc, vFailed>>
All == SetToSeq(IF Pool = "large" THEN LgLarge ELSE G!TreesUpTo(MaxNodes))
Init == /\ vT \in {All[k] : k \in {x \in 1..Len(All) : x % Shares = Share}}
        /\ vW \in {InitWriter(vT, mo) : mo \in Modes}
        /\ vAcc = <<>> /\ vFailed = FALSE
\* the destination takes what the step adds, or refuses and everything stops
Step == /\ ~vFailed /\ Writing(vW)
        /\ vW' = WriteStep(vW) /\ vAcc' = vW'.out /\ UNCHANGED <<vT, vFailed>>
Refuse == /\ ~vFailed /\ Writing(vW) /\ WriteStep(vW).out # vW.out
          /\ vFailed' = TRUE /\ UNCHANGED <<vT, vW, vAcc>>
\* in one go, for values too large to look at every step of
AtOnce == ~vFailed /\ Writing(vW) /\ vW' = [vW EXCEPT !.todo = <<>>, !.out = Written(vW)] /\ vAcc' = vW'.out /\ UNCHANGED <<vT, vFailed>>
Next == IF Pool = "large" THEN AtOnce ELSE Step \/ Refuse
Spec == Init /\ [][Next]_vars
View == <<vT, vW.mode, Len(vW.todo), Len(vW.out), vFailed, vW>>

Full == Write(vT, vW.mode)
\* whatever happens, the destination holds a prefix of the full output
Prefix == vFailed => LET a == Bytes(vAcc, 1) f == Bytes(Full, 1) IN Len(a) < Len(f) /\ SubSeq(f, 1, Len(a)) = a
Done == ~Writing(vW) /\ ~vFailed
\* the text without the whitespace outside of strings
Tokens(b) == LET last == FoldLeft(LAMBDA z, x : LET n == StepByte(z[1], x) IN <<n, z[2] \o n.out>>, <<InitTokenizer(DefaultCfg), <<>>>>, b)
                 p == last[2] \o Finish(last[1]).out
             IN [j \in 1..Len(p) |-> <<p[j][2], SubSeq(b, p[j][3] + 1, p[j][4])>>]
NoWs(b) == SelectSeq(b, LAMBDA x : ~IsWs(x))
Result ==
  Done =>
   LET b == TLCEval(Bytes(vW.out, 1)) p == TLCEval(Parse(b, DefaultCfg)) c == TLCEval(CompactText(vT)) IN
   /\ ~vW.mode.pretty => b = c
   /\ IsWsMode(vW.mode) =>
        /\ p.m.st = "ok"
        /\ SameValue(TLCEval(ValueOf(TLCEval(TreeOf(p.ev)), b)), vT)
        /\ Tokens(b) = Tokens(c)
   \* only layout: dropping whitespace and the chosen layout bytes leaves the compact text
   /\ (IsWsMode(vW.mode) /\ \A q \in 1..Len(c) : ~IsWs(c[q])) => NoWs(b) = c

Vector == [k |-> "W", t |-> vT, x |-> CompactText(vT),
           o |-> [j \in 1..Len(ModeSeq) |-> <<ModeSeq[j].pretty, ModeSeq[j].ind, ModeSeq[j].nl, Write(vT, ModeSeq[j])>>]]
\* one vector per tree: when its compact run ends
EmitDone == IF ~Writing(vW') /\ ~vFailed' /\ ~vW'.mode.pretty THEN PrintT(ToJson(Vector)) ELSE TRUE
=============================================================================
