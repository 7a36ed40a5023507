------------------------------- MODULE MCStr -------------------------------
(***************************************************************************)
(* All texts over a pool of characters up to MaxLen, each in all (or some) *)
(* of its spellings: the comparison machine on every ordered pair, the     *)
(* laws equality and ordering must obey, and the vectors replayed into the *)
(* implementation: one row per text, holding every other text.             *)
(***************************************************************************)
EXTENDS JsonStr, Json, FiniteSets, SequencesExt, Functions

CONSTANTS Pool,      \* name of the character pool
          MaxLen,
          Share, Shares,  \* this run emits the rows whose index is Share modulo Shares
          Spelled    \* how many spellings of longer texts at most

Chars == CASE Pool = "small" -> {97, 98, 10, 233}
           \* neighbours across every width and across the UTF-16 surrogates
           [] Pool = "order" -> {0, 34, 65, 97, 127, 128, 255, 2047, 2048, 55295, 57344, 65535, 65536, 1114111}
           \* escapes of all kinds
           [] Pool = "escapes" -> {7, 8, 9, 10, 12, 13, 31, 34, 47, 92, 117, 233, 128512}
           [] OTHER -> {97, 92, 110, 117, 10}     \* text that looks like an escape

RECURSIVE TextsOf(_)
TextsOf(n) == IF n = 0 THEN {<<>>} ELSE {Append(t, c) : t \in TextsOf(n - 1), c \in Chars}
Run(n) == [j \in 1..n |-> 97]
AllTexts == IF Pool = "long" THEN {Run(p) \o x \o Run(q) : p \in {0, 7, 8, 15, 16, 17, 32, 64}, x \in {<<>>, <<98>>, <<10>>, <<233>>, <<65536>>}, q \in {0, 8}}
            ELSE UNION {TextsOf(n) : n \in 0..MaxLen}
Texts == SetToSeq(AllTexts)

RECURSIVE SpellText(_, _)
\* every combination of spellings; w bounds the number of combinations kept per prefix
Some(S, w) == IF Cardinality(S) <= w THEN S ELSE {SetToSeq(S)[k] : k \in 1..w}
SpellText(t, i) == IF i = 0 THEN {<<>>}
  ELSE Some({p \o s : p \in SpellText(t, i - 1), s \in Spellings(t[i])}, Spelled)
\* kept combinations always include the plainest and the most escaped one
RECURSIVE Plainest(_, _), Escaped(_, _)
Plainest(t, i) == IF i > Len(t) THEN <<>>
  ELSE (IF MayBeRaw(t[i]) THEN Utf8Of(t[i]) ELSE NumEsc(t[i], FALSE)) \o Plainest(t, i + 1)
Escaped(t, i) == IF i > Len(t) THEN <<>> ELSE NumEsc(t[i], TRUE) \o Escaped(t, i + 1)
Bodies(t) == SpellText(t, Len(t)) \cup {Plainest(t, 1), Escaped(t, 1)}
Entry(t) == [t |-> t, sp |-> SetToSeq(Bodies(t))]
Entries == [k \in 1..Len(Texts) |-> Entry(Texts[k])]

VARIABLES vA, vB, vC
vars == <<vA, vB, vC>>
Mine(k) == k % Shares = Share
Init == /\ vA \in {k \in 1..Len(Texts) : Mine(k)} /\ vB = 0 /\ vC = InitCompare(<<>>, <<>>)
\* take the next partner, run the two cursors, go on
Pick == /\ vC.v # "?" \/ vB = 0
        /\ vB < Len(Texts)
        /\ vB' = vB + 1 /\ vC' = InitCompare(Texts[vA], Texts[vB + 1]) /\ UNCHANGED vA
Step == /\ vB > 0 /\ vC.v = "?" /\ vC' = StepCompare(vC) /\ UNCHANGED <<vA, vB>>
Next == Pick \/ Step
Spec == Init /\ [][Next]_vars

Done == vB > 0 /\ vC.v # "?"
Opposite(v) == CASE v = "lt" -> "gt" [] v = "gt" -> "lt" [] OTHER -> v
\* equality is equality of texts; the order is antisymmetric, and it is the order of the UTF-8 forms
Laws == Done =>
  LET x == Texts[vA] y == Texts[vB] IN
  /\ (vC.v = "eq") <=> (x = y)
  /\ Compare(y, x) = Opposite(vC.v)
  /\ Compare(Utf8Encode(x), Utf8Encode(y)) = vC.v
\* every spelling means the text
Means == vB = 0 => \A s \in Bodies(Texts[vA]) : IsBody(s) /\ TextOfBody(s) = Texts[vA]
\* transitivity, on every triple with the current pair
Transitive == Done /\ vC.v = "lt" /\ MaxLen < 2 =>
  \A k \in 1..Len(Texts) : Compare(Texts[vB], Texts[k]) = "lt" => Compare(Texts[vA], Texts[k]) = "lt"

Row == [k |-> "P", a |-> Entries[vA],
        bs |-> [j \in 1..Len(Texts) |-> <<Texts[j], Entries[j].sp, Cmp(Texts[vA], Texts[j])>>]]
EmitRow == IF vB = 0 /\ vB' = 1 THEN PrintT(ToJson(Row)) ELSE TRUE
=============================================================================
