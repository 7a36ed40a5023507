------------------------------ MODULE TraceDoc ------------------------------
(***************************************************************************)
(* Is every recorded history of document cursors a behaviour of the cursor *)
(* machine over the nodes of the recorded text?                            *)
(*                                                                         *)
(* A recording holds the text, the configuration, and the operations:      *)
(*   <<cursor, "next", remaining, node or <<>>>>                           *)
(*   <<cursor, "value", remaining, nodes of the value read>>               *)
(*   <<cursor, "skip", remaining, <<>>>>                                   *)
(*   <<cursor, "clone", remaining, <<>>>>                                  *)
(* where remaining is the number of nodes the cursor has left afterwards.  *)
(***************************************************************************)
EXTENDS JsonText, JsonTree, DocCursor, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vI, vPh, vNodes, vCur, vK, vWhy
vars == <<vI, vPh, vNodes, vCur, vK, vWhy>>
T == Trace[vI]
CfgOf(c) == [tc |-> c[1], lim |-> c[2], roots |-> c[3]]
Init == /\ vI \in 1..Len(Trace) /\ vPh = "read" /\ vNodes = <<>> /\ vCur = <<InitCursor>> /\ vK = 0
        /\ vWhy = IF "panic" \in DOMAIN Trace[vI] THEN "panic" ELSE ""

\* the text says what the vNodes are
Read == /\ vPh = "read" /\ vWhy = ""
        /\ LET p == Parse(T.in, CfgOf(T.c)) IN
           IF p.m.st = "ok" THEN vNodes' = Flatten(TreeOf(p.ev)) /\ vPh' = "run" /\ UNCHANGED vWhy
           ELSE vWhy' = "TOOL: the recorder used a text the specification refuses" /\ UNCHANGED <<vNodes, vPh>>
        /\ UNCHANGED <<vI, vCur, vK>>

SamePlace(o, e) == (o[2] = e[2] /\ o[3] = e[3]) \/ (e[2] = e[3] /\ o[2] = o[3])
SameNode(o, e) == o[1] = e[1] /\ (IF e[1] = "str" THEN Len(o) = 5 /\ SamePlace(o, e) /\ o[5] = e[5] ELSE o = e)
SameNodes(o, e) == Len(o) = Len(e) /\ \A j \in 1..Len(e) : SameNode(o[j], e[j])

Op == T.h[vK + 1]
Step == /\ vPh = "run" /\ vWhy = "" /\ vK < Len(T.h)
        /\ LET c == Op[1]
               n == CASE Op[2] = "next" -> Advance(vNodes, vCur[c])
                      [] Op[2] = "clone" -> vCur[c]
                      [] OTHER -> PastValue(vNodes, vCur[c])
               got == SubSeq(vNodes, vCur[c].pos, n.pos - 1)
           IN /\ vCur' = IF Op[2] = "clone" THEN Append(vCur, vCur[c]) ELSE [vCur EXCEPT ![c] = n]
              /\ vWhy' = CASE Op[2] = "next" /\ ~(IF got = <<>> THEN Op[4] = <<>> ELSE Op[4] # <<>> /\ SameNode(Op[4], got[1])) -> "next"
                          [] Op[2] = "value" /\ ~SameNodes(Op[4], got) -> "next_value"
                          [] Op[3] # Len(vNodes) + 1 - n.pos -> "position"
                          [] OTHER -> IF vK + 1 = Len(T.h) THEN "ok" ELSE ""
        /\ vK' = vK + 1 /\ UNCHANGED <<vI, vPh, vNodes>>
Next == Read \/ Step
Spec == Init /\ [][Next]_vars
Conforms == vWhy \in {"", "ok"} \/ ~PrintT(<<"REJECT", vI, vWhy, vK>>)
=============================================================================
