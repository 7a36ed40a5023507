------------------------------ MODULE MCDepth ------------------------------
(***************************************************************************)
(* The nesting limit as a counter: an abstraction of the parser machine to *)
(* the brackets of an otherwise flawless text, for depths and widths that  *)
(* the machine itself cannot be run to.  A walk is a sequence of moves:    *)
(*   <<"push", n>>   n containers are opened, one inside the other         *)
(*   <<"pop", n>>    n containers are closed (the root stays open)         *)
(*   <<"churn", n>>  n empty containers next to each other                 *)
(* and ends with everything closed.  On short walks the abstraction is     *)
(* compared with the machine.                                              *)
(***************************************************************************)
EXTENDS JsonText, Json, SequencesExt, FiniteSets
CONSTANTS Scale, MaxMoves, Share, Shares

Limits == CASE Scale = "small" -> {NoLimit, 0, 1, 2, 3}
            [] Scale = "byte" -> {NoLimit, 1, 127, 128, 129, 254, 255, 256, 257, 300}
            [] OTHER -> {NoLimit, 65535, 65536, 70000}
Jumps(l) == CASE Scale = "small" -> {1, 2, 3}
              [] Scale = "byte" -> {1, 2, 127, 256} \cup (IF l > 2 THEN {l - 1, l, l + 1} ELSE {})
              [] OTHER -> {1, 65536} \cup (IF l > 2 THEN {l - 1, l, l + 1} ELSE {})
MaxTotal == CASE Scale = "small" -> 12 [] Scale = "byte" -> 1400 [] OTHER -> 140001

VARIABLES vLim, vDepth, vTotal, vBad, vWalk
vars == <<vLim, vDepth, vTotal, vBad, vWalk>>
Init == /\ vLim \in {l \in Limits : (l + 7) % Shares = Share}
        /\ vDepth = 0 /\ vTotal = 0 /\ vBad = 0 /\ vWalk = <<>>
Over(d) == vLim # NoLimit /\ d > vLim
Push(n) == /\ vDepth' = vDepth + n /\ vTotal' = vTotal + n
           /\ vBad' = IF vBad = 0 /\ Over(vDepth + n) THEN vTotal + (vLim - vDepth) + 1 ELSE vBad
           /\ vWalk' = Append(vWalk, <<"push", n>>)
Pop(n) == /\ n < vDepth
          /\ vDepth' = vDepth - n /\ UNCHANGED <<vTotal, vBad>>
          /\ vWalk' = Append(vWalk, <<"pop", n>>)
Churn(n) == /\ vDepth > 0
            /\ vBad' = IF vBad = 0 /\ Over(vDepth + 1) THEN vTotal + 1 ELSE vBad
            /\ vTotal' = vTotal + n /\ UNCHANGED vDepth
            /\ vWalk' = Append(vWalk, <<"churn", n>>)
Next == /\ Len(vWalk) < MaxMoves
        /\ UNCHANGED vLim
        /\ \E n \in Jumps(vLim) : /\ vTotal + n <= MaxTotal
                                  /\ (Push(n) \/ Pop(n) \/ Churn(n))
Spec == Init /\ [][Next]_vars

\* ------------------------------------- the text of a walk, all of arrays
Rep(b, n) == [i \in 1..n |-> b]
After(t) == IF t # <<>> /\ t[Len(t)] = RBRACK THEN <<COMMA>> ELSE <<>>
RECURSIVE Churned(_, _)
Churned(t, n) == IF n = 0 THEN t ELSE Churned(t \o After(t) \o <<LBRACK, RBRACK>>, n - 1)
Text == LET t == FoldLeft(LAMBDA a, m : CASE m[1] = "push" -> a \o After(a) \o Rep(LBRACK, m[2])
                                          [] m[1] = "pop" -> a \o Rep(RBRACK, m[2])
                                          [] OTHER -> Churned(a, m[2]), <<>>, vWalk)
        IN t \o Rep(RBRACK, vDepth)
Nth(t, k) == CHOOSE i \in 1..Len(t) : t[i] = LBRACK /\ Cardinality({j \in 1..i : t[j] = LBRACK}) = k

\* ------------------------------------------------------------- properties
TypeOK == vDepth >= 0 /\ vBad <= vTotal /\ (vBad > 0 => vLim # NoLimit)
\* the walk is refused iff some prefix holds more than the limit
Most == FoldLeft(LAMBDA d, m : LET n == CASE m[1] = "push" -> d.now + m[2] [] m[1] = "pop" -> d.now - m[2] [] OTHER -> d.now
                                   h == IF m[1] = "churn" THEN n + 1 ELSE n
                               IN [now |-> n, most |-> IF h > d.most THEN h ELSE d.most], [now |-> 0, most |-> 0], vWalk).most
Exact == (vBad > 0) <=> (vLim # NoLimit /\ Most > vLim)
\* the parser machine says the same about the text
Agrees == (vWalk # <<>> /\ vTotal <= 12) =>
   LET m == Parse(Text, [tc |-> FALSE, lim |-> vLim, roots |-> TRUE]).m IN
   IF vBad = 0 THEN m.st = "ok"
   ELSE /\ m.st = "err" /\ m.err.k = "RecursionLimitReached"
        /\ m.err.hi = Nth(Text, vBad) - 1

EmitWalk == PrintT(ToJson([k |-> "L", lim |-> vLim, w |-> vWalk', bad |-> vBad']))
=============================================================================
