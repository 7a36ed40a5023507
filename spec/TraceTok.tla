------------------------------ MODULE TraceTok ------------------------------
(***************************************************************************)
(* Is every recorded history of tokenizer calls a behaviour of the         *)
(* tokenizer machine?  A recorded call is <<op, result, offset after it>>. *)
(***************************************************************************)
EXTENDS TokCursor, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vI, vT, vK, vWhy
vars == <<vI, vT, vK, vWhy>>
T == Trace[vI]
Init == /\ vI \in 1..Len(Trace) /\ vT = InitTok /\ vK = 0
        /\ vWhy = IF "panic" \in DOMAIN Trace[vI] THEN "panic" ELSE ""
Op == T.h[vK + 1]
\* an empty string may be any empty slice
SamePlace(o, e) == (o[3] = e[3] /\ o[4] = e[4]) \/ (e[2] = "str" /\ e[4] = e[3] + 2)
Same(o, e) ==
  /\ o[1] = e[1]
  /\ CASE e[1] = "err" -> /\ (o[2] = e[2] \/ (e[3] # "" /\ o[2] = e[3]))
                          /\ (e[2] = "Unexpected" => o[3] = e[4])
                          /\ o[4] >= e[5] /\ o[4] <= e[6]
       [] e[1] = "tok" /\ e[2] = "str" -> o[2] = "str" /\ SamePlace(o, e) /\ o[5] = e[6]
       [] e[1] = "tok" -> o[2] = e[2] /\ (e[2] = "num" => SamePlace(o, e))
       [] OTHER -> o = e
Step == /\ vWhy = "" /\ vK < Len(T.h)
        /\ IF vT.broken
           THEN /\ UNCHANGED vT
                /\ vWhy' = IF Op[3] > Len(T.in) THEN "offset after an error"
                          ELSE IF vK + 1 = Len(T.h) THEN "ok" ELSE ""
           ELSE LET r == Do(Op[1], T.in, vT) IN
                /\ vT' = r[2]
                /\ vWhy' = CASE ~Same(Op[2], r[1]) -> "result"
                            [] ~r[2].broken /\ Op[3] # r[2].off -> "offset"
                            [] OTHER -> IF vK + 1 = Len(T.h) THEN "ok" ELSE ""
        /\ vK' = vK + 1 /\ UNCHANGED vI
Next == Step
Spec == Init /\ [][Next]_vars
Conforms == vWhy \in {"", "ok"} \/ ~PrintT(<<"REJECT", vI, vWhy, vK>>)
=============================================================================
