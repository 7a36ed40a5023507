------------------------------ MODULE TraceStr -----------------------------
(***************************************************************************)
(* Is every recorded pair of strings, with everything observed of it, a    *)
(* behaviour of the string machine?                                        *)
(*                                                                         *)
(* The machine reads the body of each literal byte by byte (a raw string   *)
(* has its text already), runs the comparison with two cursors, reads the  *)
(* JSON form the library produced for the first string, and then judges    *)
(* what was observed.                                                      *)
(***************************************************************************)
EXTENDS JsonStr, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Judged    \* subset of {"eq", "ord", "hash", "decode", "encode", "meta", "anystr"}
J(x) == x \in Judged

VARIABLES vI, vPh, vM, vK, vTa, vTb, vC, vTj, vWhy
vars == <<vI, vPh, vM, vK, vTa, vTb, vC, vTj, vWhy>>
T == Trace[vI]

Quoted(b) == <<QUOTE>> \o b \o <<QUOTE>>
Start == InitMachine(DefaultCfg)

Init == /\ vI \in 1..Len(Trace) /\ vPh = "a" /\ vM = Start /\ vK = 0 /\ vTa = <<>> /\ vTb = <<>>
        /\ vC = InitCompare(<<>>, <<>>) /\ vTj = <<>>
        /\ vWhy = IF "panic" \in DOMAIN Trace[vI] THEN "panic" ELSE ""

\* what the current phase reads
Src == CASE vPh = "a" -> Quoted(T.a.b) [] vPh = "b" -> Quoted(T.b.b) [] OTHER -> Quoted(T.json)
Raw == (vPh = "a" /\ T.a.r = "raw") \/ (vPh = "b" /\ T.b.r = "raw")
Reading == vPh \in {"a", "b", "json"}

Read == /\ vWhy = "" /\ Reading /\ ~Raw /\ vK < Len(Src) /\ Live(vM) /\ vM.ctx = "root"
        /\ vM' = StepByte(vM, Src[vK + 1]) /\ vK' = vK + 1
        /\ UNCHANGED <<vI, vPh, vTa, vTb, vC, vTj, vWhy>>
\* the literal is complete when the machine has produced the string and nothing is left
Got == IF Raw THEN (IF vPh = "a" THEN T.a.t ELSE T.b.t) ELSE vM.cps
Complete == Raw \/ (vK = Len(Src) /\ vM.ctx = "end" /\ Live(vM))
Broken == ~Raw /\ ~Complete /\ (vK = Len(Src) \/ ~Live(vM) \/ vM.ctx # "root")
Take == /\ vWhy = "" /\ Reading /\ Complete
        /\ CASE vPh = "a" -> vTa' = Got /\ vPh' = "b" /\ UNCHANGED <<vTb, vTj, vC>>
             [] vPh = "b" -> vTb' = Got /\ vPh' = "cmp" /\ vC' = InitCompare(vTa, Got) /\ UNCHANGED <<vTa, vTj>>
             [] OTHER -> vTj' = Got /\ vPh' = "judge" /\ UNCHANGED <<vTa, vTb, vC>>
        /\ vM' = Start /\ vK' = 0 /\ UNCHANGED <<vI, vWhy>>
\* only what the library itself wrote can be broken; the recorder parsed the others
Break == /\ vWhy = "" /\ Reading /\ Broken
         /\ IF vPh = "json" THEN IF J("encode") THEN vWhy' = "the JSON form is not a string body" /\ UNCHANGED vPh
                                ELSE vPh' = "judge" /\ UNCHANGED vWhy
            ELSE vWhy' = "TOOL: the recorder used a literal the specification refuses" /\ UNCHANGED vPh
         /\ UNCHANGED <<vI, vM, vK, vTa, vTb, vC, vTj>>
Cursor == /\ vWhy = "" /\ vPh = "cmp"
          /\ IF vC.v = "?" THEN vC' = StepCompare(vC) /\ UNCHANGED vPh ELSE vPh' = "json" /\ UNCHANGED vC
          /\ UNCHANGED <<vI, vM, vK, vTa, vTb, vTj, vWhy>>

V == CASE vC.v = "lt" -> -1 [] vC.v = "gt" -> 1 [] OTHER -> 0
E == vC.v = "eq"
EscA == T.a.r = "json" /\ (\E j \in 1..Len(T.a.b) : T.a.b[j] = BSL)
BytesA == TextBytes(vTa)

Meta ==
  CASE T.dlen # BytesA -> "decoded_len"
    [] T.len # Len(T.json) -> "len"
    [] T.empty # (vTa = <<>>) -> "is_empty"
    [] T.direct # (IF EscA THEN <<"none">> ELSE <<"some", vTa>>) -> "as_str"
    [] T.a.r = "json" /\ ~T.jstr -> "as_json_str"
    [] T.a.r = "json" /\ T.decb # ~EscA -> "decode_if_needed borrows"
    [] T.a.r = "json" /\ ~T.escb -> "escape_if_needed copies"
    [] \E h \in 1..Len(T.hints) : LET x == T.hints[h] IN x[1] > x[3] \/ (x[2] >= 0 /\ x[2] < x[3]) -> "size hint"
    [] OTHER -> ""
Verdict ==
  CASE J("eq") /\ T.eq # <<E, E, E, ~E>> -> "equality"
    [] J("ord") /\ T.cmp # <<V, -V, V, V>> -> "order"
    [] J("hash") /\ (T.ha # T.hp \/ (E /\ T.ha # T.hb) \/ (E /\ ~T.sip)) -> "hash"
    [] J("decode") /\ (T.dec # vTa \/ T.show # vTa \/ T.owned # vTa) -> "decoded text"
    [] J("encode") /\ T.a.r = "json" /\ T.json # T.a.b -> "a parsed string is not written back as spelled"
    [] J("encode") /\ vTj # vTa -> "the JSON form means another text"
    [] J("encode") /\ ~T.forms -> "the ways to obtain the JSON form differ"
    [] J("meta") /\ Meta # "" -> Meta
    [] J("anystr") /\ T.any # <<E, E, V, -V, E, V, TRUE>> -> "AnyStr"
    [] OTHER -> "ok"
Judge == /\ vWhy = "" /\ vPh = "judge" /\ vWhy' = Verdict /\ vPh' = "done"
         /\ UNCHANGED <<vI, vM, vK, vTa, vTb, vC, vTj>>

Next == Read \/ Take \/ Break \/ Cursor \/ Judge
Spec == Init /\ [][Next]_vars
Conforms == vWhy \in {"", "ok"} \/ ~PrintT(<<"REJECT", vI, vWhy, vK>>)
=============================================================================
