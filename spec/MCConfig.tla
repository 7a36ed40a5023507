------------------------------ MODULE MCConfig ------------------------------
(***************************************************************************)
(* Every history of constructors, builder steps and assignments up to a    *)
(* length; each with the fields it must end in and the verdicts a parser   *)
(* so configured gives on a set of probing texts.                          *)
(***************************************************************************)
EXTENDS ParseConfig, JsonText, Json
CONSTANTS MaxSteps

VARIABLES vC, vH
vars == <<vC, vH>>

Init == \E o \in Makers : vC = Made(o) /\ vH = << <<o, 0>> >>
Next == /\ Len(vH) <= MaxSteps
        /\ \E o \in Steps : vC' = Applied(vC, o) /\ vH' = Append(vH, o)
Spec == Init /\ [][Next]_vars

\* a step changes what it names and nothing else (builders are independent)
OnlyNamed == [][LET o == vH'[Len(vH')] IN \A f \in {"tc", "lim", "roots"} : f # Names(o) => vC'[f] = vC[f]]_vars
\* steps naming different fields commute; of two naming the same the last wins
Commute == \A a, b \in Steps : LET ab == Applied(Applied(vC, a), b)
                                   ba == Applied(Applied(vC, b), a) IN
             /\ Names(a) # Names(b) => ab = ba
             /\ (Names(a) = Names(b) /\ Names(a) # "") => ab = Applied(vC, b)

OfConfig == vC

\* ------------------------------------------------------------------ probes

RECURSIVE Nest(_, _)
Nest(n, x) == IF n = 0 THEN x ELSE <<LBRACK>> \o Nest(n - 1, x) \o <<RBRACK>>
\* two brackets wide, so that a level must be released
Wide(n) == <<LBRACK>> \o Nest(n, <<>>) \o <<COMMA>> \o Nest(n, <<>>) \o <<RBRACK>>
K == <<QUOTE, 107, QUOTE, COLON>>
Probes == << <<49>>, <<QUOTE, QUOTE>>, <<110, 117, 108, 108>>, <<LBRACK, RBRACK>>, <<LBRACE, RBRACE>>,
             <<LBRACK, 49, COMMA, RBRACK>>, <<LBRACE>> \o K \o <<49, COMMA, RBRACE>>, <<LBRACK, COMMA, RBRACK>>,
             <<LBRACK, 49, COMMA, COMMA, RBRACK>>, <<LBRACE>> \o K \o <<LBRACK, 49, COMMA, RBRACK, COMMA, RBRACE>>,
             <<49, COMMA>>, <<LBRACK, RBRACK, COMMA>>,
             Wide(1), Wide(2), Wide(3), Nest(126, <<49>>), Nest(127, <<49>>), Nest(128, <<49>>), Nest(129, <<49>>), Nest(130, <<49, COMMA>>),
             <<LBRACE>> \o K \o <<LBRACE>> \o K \o <<LBRACK, RBRACK, RBRACE, RBRACE>> >>

Verdicts[c \in [tc : BOOLEAN, lim : {Unlimited, 4} \cup Limits, roots : BOOLEAN]] == [i \in 1..Len(Probes) |-> Accepts(Probes[i], c)]

EmitRow == PrintT(ToJson([k |-> "C", h |-> vH', c |-> <<vC'.tc, vC'.lim, vC'.roots>>, v |-> Verdicts[vC'], p |-> Probes]))
=============================================================================
