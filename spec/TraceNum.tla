------------------------------ MODULE TraceNum ------------------------------
(***************************************************************************)
(* Are the recorded conversions of number literals the right ones?         *)
(* A recording holds the literal and the distinct sets of results observed *)
(* for it: <<where, <<<<type, digits>>, ...>>, f64 bytes, f32 bytes>>.     *)
(***************************************************************************)
EXTENDS JsonFloat, Json, IOUtils, FiniteSets, SequencesExt
CONSTANTS Judged
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vI, vAt, vNum, vWhy
vars == <<vI, vAt, vNum, vWhy>>
T == Trace[vI]
Init == /\ vI \in 1..Len(Trace) /\ vAt = 0 /\ vNum = InitNum
        /\ vWhy = IF "panic" \in DOMAIN Trace[vI] THEN "panic" ELSE ""
Read == /\ vWhy = "" /\ vAt < Len(T.in)
        /\ vNum' = FoldLeft(NumByte, vNum, T.in) /\ vAt' = Len(T.in)
        /\ vWhy' = IF IsNumber(T.in) THEN "" ELSE "TOOL: not a number literal"
        /\ UNCHANGED vI

Unsigned == {"u8", "u16", "u32", "u64", "u128"}
Signed == {"i8", "i16", "i32", "i64", "i128"}
Bits == [t \in Unsigned \cup Signed |-> CASE t \in {"u8", "i8"} -> 8 [] t \in {"u16", "i16"} -> 16 [] t \in {"u32", "i32"} -> 32 [] t \in {"u64", "i64"} -> 64 [] OTHER -> 128]
Takes(t) == IF t \in Unsigned THEN FitsUnsigned(vNum, Bits[t]) ELSE FitsSigned(vNum, Bits[t])
RightInts(o) == /\ {o[2][j][1] : j \in 1..Len(o[2])} = {t \in Unsigned \cup Signed : Takes(t)}
                /\ \A j \in 1..Len(o[2]) : o[2][j][2] = Canonical(vNum)
                \* usize and isize are recorded under the name of their width
                /\ Len(o[2]) = Cardinality({t \in Unsigned \cup Signed : Takes(t)}) + (IF Takes("u64") THEN 1 ELSE 0) + (IF Takes("i64") THEN 1 ELSE 0)
RightFloats(o) == /\ o[3] # <<>> /\ RightFloat(64, vNum, OfBits(64, o[3]))
                  /\ o[4] # <<>> /\ RightFloat(32, vNum, OfBits(32, o[4]))
Judge == /\ vWhy = "" /\ vAt = Len(T.in)
         /\ vWhy' = CASE "ints" \in Judged /\ \E j \in 1..Len(T.obs) : ~RightInts(T.obs[j]) -> "ints"
                      [] "floats" \in Judged /\ \E j \in 1..Len(T.obs) : ~RightFloats(T.obs[j]) -> "floats"
                      [] T.places < 8 -> "places"
                      [] OTHER -> "ok"
         /\ UNCHANGED <<vI, vAt, vNum>>
Next == Read \/ Judge
Spec == Init /\ [][Next]_vars
Conforms == vWhy \in {"", "ok"} \/ ~PrintT(<<"REJECT", vI, vWhy>>)
=============================================================================
