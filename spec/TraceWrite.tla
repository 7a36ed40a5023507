----------------------------- MODULE TraceWrite -----------------------------
(***************************************************************************)
(* Is every recorded output what the writing machine writes?               *)
(*                                                                         *)
(* A recording holds a value as a list of nodes (n), a mode (m), the       *)
(* output (out), whether all writers of that mode agreed (same), and what  *)
(* refusing destinations saw (sinks): <<refused, error reported, writes    *)
(* after the refusal, accepted bytes>>.  The machine runs over the output: *)
(* every step must find what it writes at the place reached.               *)
(***************************************************************************)
EXTENDS JsonWrite, Json, IOUtils
CONSTANT Judged      \* subset of {"compact", "pretty", "sink"}
Trace == ndJsonDeserialize(IOEnv.TRACE)

RECURSIVE ValueAtNode(_, _), Elems(_, _, _), Members(_, _, _)
ValueAtNode(ns, i) == CASE ns[i][1] = "arr" -> <<"arr", Elems(ns, i + 1, ns[i][2])>>
                        [] ns[i][1] = "obj" -> <<"obj", Members(ns, i + 1, ns[i][2])>>
                        [] OTHER -> ns[i]
Elems(ns, i, k) == IF k = 0 THEN <<>> ELSE <<ValueAtNode(ns, i)>> \o Elems(ns, EndOf(ns, i), k - 1)
Members(ns, i, k) == IF k = 0 THEN <<>>
  ELSE <<<<ns[i][2], ValueAtNode(ns, i + 1)>>>> \o Members(ns, EndOf(ns, i + 1), k - 1)

VARIABLES vI, vW, vPos, vWhy
vars == <<vI, vW, vPos, vWhy>>
T == Trace[vI]
Mode(t) == [pretty |-> t.m[1], ind |-> t.m[2], nl |-> t.m[3]]
Init == /\ vI \in 1..Len(Trace) /\ vPos = 0
        /\ vWhy = IF "panic" \in DOMAIN Trace[vI] THEN "panic" ELSE ""
        /\ vW = IF "panic" \in DOMAIN Trace[vI] THEN [todo |-> <<>>, out |-> <<>>, mode |-> CompactMode]
               ELSE InitWriter(ValueAtNode(Trace[vI].n, 1), Mode(Trace[vI]))

\* where a piece ends in the output if it starts at p; -1 if it is not there
RECURSIVE CloseQuote(_, _)
CloseQuote(b, p) == IF p >= Len(b) THEN -1 ELSE IF b[p + 1] = QUOTE THEN p ELSE CloseQuote(b, IF b[p + 1] = BSL THEN p + 2 ELSE p + 1)
EndOfPiece(b, p, e) ==
  IF e[1] = "l" THEN IF p + Len(e[2]) <= Len(b) /\ SubSeq(b, p + 1, p + Len(e[2])) = e[2] THEN p + Len(e[2]) ELSE -1
  ELSE IF p >= Len(b) \/ b[p + 1] # QUOTE THEN -1
  ELSE LET q == CloseQuote(b, p + 1) IN
       IF q < 0 THEN -1
       ELSE LET body == SubSeq(b, p + 2, q) IN IF IsBody(body) /\ TextOfBody(body) = e[2] THEN q + 1 ELSE -1
RECURSIVE EndOfPieces(_, _, _, _)
EndOfPieces(b, p, ps, k) == IF p < 0 \/ k > Len(ps) THEN p ELSE EndOfPieces(b, EndOfPiece(b, p, ps[k]), ps, k + 1)

Mine == (IF T.m[1] THEN "pretty" ELSE "compact") \in Judged
Step == /\ vWhy = "" /\ vW.todo # <<>>
        /\ LET n == WriteStep([vW EXCEPT !.out = <<>>])
               e == EndOfPieces(T.out, vPos, n.out, 1)
           IN /\ vW' = [n EXCEPT !.out = <<>>]
              /\ vPos' = e
              /\ vWhy' = IF e < 0 /\ Mine THEN "output" ELSE ""
        /\ UNCHANGED vI

IsWsBytes(b) == \A k \in 1..Len(b) : IsWs(b[k])
\* the output read again (long outputs: their pieces decide)
ReadsBack == IF Len(T.out) > 500 \/ ~(IsWsBytes(T.m[2]) /\ IsWsBytes(T.m[3])) THEN TRUE
             ELSE LET p == Parse(T.out, [DefaultCfg EXCEPT !.lim = -1]) IN
                  p.m.st = "ok" /\ SameValue(ValueOf(TreeOf(p.ev), T.out), ValueAtNode(T.n, 1))
SinkOk(s) == s[1] = s[2] /\ s[3] = 0
             /\ Len(s[4]) <= Len(T.out) /\ s[4] = SubSeq(T.out, 1, Len(s[4]))
             /\ (~s[1] => s[4] = T.out)
End == /\ vWhy = "" /\ vW.todo = <<>>
       /\ vWhy' = CASE Mine /\ vPos # Len(T.out) -> "more output than the value has"
                   [] Mine /\ ~T.same -> "the writers disagree"
                   [] Mine /\ ~ReadsBack -> "reading back"
                   [] "sink" \in Judged /\ \E k \in 1..Len(T.sinks) : ~SinkOk(T.sinks[k]) -> "destination"
                   [] OTHER -> "ok"
       /\ UNCHANGED <<vI, vW, vPos>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Conforms == vWhy \in {"", "ok"} \/ ~PrintT(<<"REJECT", vI, vWhy, vPos>>)
=============================================================================
