------------------------------ MODULE MCOptions ------------------------------
(***************************************************************************)
(* What the options mean, stated without the parser machine, against what  *)
(* the machine does under every configuration: on every sequence of up to  *)
(* MaxTokens tokens.                                                       *)
(*   trailing commas: the same as the text without the comma before a      *)
(*     closing bracket that follows a value;                               *)
(*   roots: the default verdict, and the root is a container;              *)
(*   limit: the verdict without limit, and no prefix opens more than that. *)
(***************************************************************************)
EXTENDS JsonText
LOCAL INSTANCE SequencesExt
CONSTANTS MaxTokens

Key == <<QUOTE, 97, QUOTE>>
TokenSet == { <<LBRACE>>, <<RBRACE>>, <<LBRACK>>, <<RBRACK>>, <<COMMA>>, <<COLON>>, <<49>>, Key }
Cfgs == [tc : BOOLEAN, lim : {NoLimit, 0, 1, 2, 3}, roots : BOOLEAN]
Loose == [tc |-> TRUE, lim |-> NoLimit, roots |-> TRUE]
Plain == [tc |-> FALSE, lim |-> NoLimit, roots |-> TRUE]

VARIABLES vS, vMs
vars == <<vS, vMs>>
Init == vS = <<>> /\ vMs = [c \in Cfgs |-> [m |-> InitMachine(c), ev |-> <<>>]]
FeedOn(r, t) == LET f == Feed(r.m, t) IN [m |-> f.m, ev |-> r.ev \o f.ev]
Next == /\ Len(vS) < MaxTokens
        /\ Live(vMs[Loose].m)           \* what even the loosest refuses stays refused
        /\ \E t \in TokenSet : vS' = Append(vS, t) /\ vMs' = [c \in Cfgs |-> FeedOn(vMs[c], t)]
Spec == Init /\ [][Next]_vars

Ended(r) == IF Live(r.m) THEN LET e == Finish(r.m) IN [m |-> e, ev |-> r.ev \o e.out] ELSE r
OK(c) == Ended(vMs[c]).m.st = "ok"

\* ---------------------------------------------------- stated independently
Opens == { <<LBRACE>>, <<LBRACK>> }
Closes == { <<RBRACE>>, <<RBRACK>> }
Trailing(i) == /\ i > 1 /\ i < Len(vS) /\ vS[i] = <<COMMA>> /\ vS[i + 1] \in Closes
               /\ vS[i - 1] \notin Opens \cup { <<COMMA>>, <<COLON>> }
Stripped == FoldLeft(LAMBDA a, i : IF Trailing(i) THEN a ELSE a \o vS[i], <<>>, [i \in 1..Len(vS) |-> i])
\* calls without positions
Shape(ev) == [i \in 1..Len(ev) |-> IF ev[i][1] \in {"num", "str", "key"} THEN <<ev[i][1]>> ELSE ev[i]]
Depths == FoldLeft(LAMBDA d, t : LET n == d.now + (IF t \in Opens THEN 1 ELSE IF t \in Closes THEN -1 ELSE 0)
                                 IN [now |-> n, most |-> IF n > d.most THEN n ELSE d.most], [now |-> 0, most |-> 0], vS)
Container == vS # <<>> /\ vS[1] \in Opens

TrailingCommas == LET p == Parse(Stripped, Plain)  IN
  /\ OK(Loose) <=> p.m.st = "ok"
  /\ OK(Loose) => Shape(Ended(vMs[Loose]).ev) = Shape(p.ev)
Roots == \A c \in Cfgs : ~c.roots => (OK(c) <=> (OK([c EXCEPT !.roots = TRUE]) /\ Container))
Limit == \A c \in Cfgs : c.lim # NoLimit => (OK(c) <=> (OK([c EXCEPT !.lim = NoLimit]) /\ Depths.most <= c.lim))
\* an option that does not matter for a text changes nothing at all
Independent == \A c \in Cfgs : OK(c) => \A d \in Cfgs : OK(d) => Ended(vMs[c]).ev = Ended(vMs[d]).ev
\* the error of a limited parse comes no later than the text's own
First == \A c \in Cfgs : LET l == [c EXCEPT !.lim = NoLimit] IN
  (~Live(vMs[c].m) /\ vMs[c].m.err.k # "RecursionLimitReached" /\ ~Live(vMs[l].m)) => vMs[c].m.err = vMs[l].m.err
=============================================================================
