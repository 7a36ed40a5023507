------------------------------ MODULE TraceObj ------------------------------
(***************************************************************************)
(* Is every recorded history of edits one of the specification?  A         *)
(* recorded edit is <<name, path, argument, argument, what was returned,   *)
(* the whole value afterwards, a key text, where it was found at the       *)
(* place of the edit (-1: not)>>.                                          *)
(***************************************************************************)
EXTENDS EditValue, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vI, vV, vK, vWhy
vars == <<vI, vV, vK, vWhy>>
T == Trace[vI]
Init == /\ vI \in 1..Len(Trace) /\ vV = Trace[vI].t /\ vK = 0
        /\ vWhy = IF "panic" \in DOMAIN Trace[vI] THEN "panic" ELSE ""
Op == T.h[vK + 1]
\* a path by keys leads to the first members; positions, so that the place can be found again after the edit
RECURSIVE Resolve(_, _)
Resolve(v, path) == IF path = <<>> THEN <<>>
  ELSE <<IF path[1][1] = "k" THEN <<"e", FirstOf(v[2], path[1][2]) - 1>> ELSE path[1]>> \o Resolve(Child(v, path[1]), Tail(path))
Step == /\ vWhy = "" /\ vK < Len(T.h)
        /\ LET p == Resolve(vV, Op[2])
               op == <<Op[1], p, Op[3], Op[4]>>
           IN IF ~Legal(vV, op) THEN vWhy' = "TOOL: not an edit" /\ UNCHANGED vV
              ELSE LET e == Apply(vV, op)
                       c == At(e[1], p)
                       f == IF c[1] = "obj" THEN FirstOf(c[2], Op[7]) - 1 ELSE -1
                   IN /\ vV' = Op[6]
                      /\ vWhy' = CASE Op[6] # e[1] -> "effect"
                                   [] Op[5] # e[2] -> "returned"
                                   [] Op[8] # f -> "lookup"
                                   [] OTHER -> IF vK + 1 = Len(T.h) THEN "ok" ELSE ""
        /\ vK' = vK + 1 /\ UNCHANGED vI
Next == Step
Spec == Init /\ [][Next]_vars
Conforms == vWhy \in {"", "ok"} \/ ~PrintT(<<"REJECT", vI, vWhy, vK>>)
=============================================================================
