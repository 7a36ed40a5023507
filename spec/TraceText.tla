------------------------------ MODULE TraceText ------------------------------
(***************************************************************************)
(* Is every recorded parse a behaviour of the parser machine?              *)
(*                                                                         *)
(* A recording holds the input and configuration, the delegate calls in    *)
(* order, the verdict of the parse and of the validator, and the value (in *)
(* document order) and the node list read from the same text.  The machine *)
(* is fed one byte at a time; the calls it makes must be the next recorded *)
(* ones, and at the end everything recorded must be accounted for.         *)
(***************************************************************************)
EXTENDS JsonText, JsonTree, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* which parts of a recording are judged:
\*   "verdict" accepted or refused, by every front end   "calls" the delegate calls
\*   "text" decoded text and escape flag   "error" kind and offset   "kind" validator's answer
\*   "value", "nodes" what the value parser and the document hold
CONSTANT Judged
J(a) == a \in Judged

VARIABLES vI, vM, vK, vWhy
vars == <<vI, vM, vK, vWhy>>
T == Trace[vI]

CfgOf(c) == [tc |-> c[1], lim |-> c[2], roots |-> c[3]]

Init == vI \in 1..Len(Trace) /\ vM = InitMachine(CfgOf(Trace[vI].c)) /\ vK = 0 /\ vWhy = ""

\* a string or number: same literal at the same place (an empty literal has no place)
SamePlace(o, e) == (o[2] = e[2] /\ o[3] = e[3]) \/ (e[2] = e[3] /\ o[2] = o[3])
IsStr(e) == e[1] \in {"str", "key"}
SameCall(o, e) ==
  /\ o[1] = e[1]
  /\ IF IsStr(e) THEN Len(o) = 5 /\ SamePlace(o, e) ELSE o = e
SameText(o, e) == (IsStr(e) /\ o[1] = e[1]) => o[4] = e[4] /\ o[5] = e[5]

\* the calls `out` against the recording
Compare(out) ==
  CASE J("calls") /\ (vK + Len(out) > Len(T.ev)
                     \/ \E j \in 1..Len(out) : ~SameCall(T.ev[vK + j], out[j])) -> "calls"
    [] J("text") /\ (\E j \in 1..Len(out) : vK + j <= Len(T.ev) /\ ~SameText(T.ev[vK + j], out[j])) -> "text"
    [] OTHER -> ""

SameNodes(os, ns) == Len(os) = Len(ns) /\ \A j \in 1..Len(ns) : SameCall(os[j], ns[j])

SameError(r, e) == /\ r[1] = "err"
                   /\ r[2] = e.k \/ (e.alt # "" /\ r[2] = e.alt)
                   /\ (e.k = "Unexpected" => r[3] = e.b)
                   /\ r[4] >= e.lo /\ r[4] <= e.hi

Verdict(f, ev) ==    \* f: the final machine; ev: all calls
  IF f.st = "ok"
  THEN CASE J("verdict") /\ (T.r[1] # "ok" \/ T.vk[1] # "ok" \/ T.tree = <<>> \/ T.nodes = <<>>) -> "accepted text refused"
         [] J("kind") /\ T.vk # <<"ok", KindOf(TreeOf(ev))>> -> "validator"
         [] J("value") /\ T.tree # <<>> /\ ~SameNodes(T.tree, Flatten(TreeOf(ev))) -> "value"
         [] J("nodes") /\ T.nodes # <<>> /\ ~SameNodes(T.nodes, Flatten(TreeOf(ev))) -> "nodes"
         [] J("panic") /\ T.r[1] = "panic" -> "panic"
         [] OTHER -> "ok"
  ELSE CASE J("verdict") /\ (T.r[1] # "err" \/ T.vk[1] # "err" \/ T.tree # <<>> \/ T.nodes # <<>>) -> "refused text accepted"
         [] J("error") /\ ~SameError(T.r, f.err) -> "error kind or offset"
         [] J("error") /\ T.vk # <<"err", T.r[2], T.r[3], T.r[4]>> -> "validator error"
         [] J("panic") /\ T.r[1] = "panic" -> "panic"
         [] OTHER -> "ok"

\* all calls the specification makes for this input
AllCalls == Parse(T.in, CfgOf(T.c)).ev

More == vM.pos < Len(T.in) /\ Live(vM)
Consume == LET n == StepByte(vM, T.in[vM.pos + 1]) IN
  /\ vWhy = "" /\ More
  /\ vM' = n
  /\ vK' = vK + Len(n.out)
  /\ vWhy' = Compare(n.out)
  /\ UNCHANGED vI
End == LET f == Finish(vM)
           rest == IF Live(vM) THEN f.out ELSE <<>> IN
  /\ vWhy = "" /\ ~More
  /\ vM' = f /\ vK' = vK + Len(rest)
  /\ vWhy' = IF Compare(rest) # "" THEN Compare(rest)
            ELSE IF J("calls") /\ vK + Len(rest) # Len(T.ev) THEN "calls beyond what the text justifies"
            ELSE Verdict(f, AllCalls)
  /\ UNCHANGED vI
Next == Consume \/ End
Spec == Init /\ [][Next]_vars

Conforms == vWhy \in {"", "ok"} \/ ~PrintT(<<"REJECT", vI, vWhy, vM.pos>>)
=============================================================================
