----------------------------- MODULE JsonWrite -----------------------------
(***************************************************************************)
(* The writing side: a machine that takes one task at a time off a list    *)
(* and appends to its output.  The output is a sequence of pieces:         *)
(*   <<"l", bytes>>  exactly these bytes                                   *)
(*   <<"s", text>>   a quoted JSON string, in any spelling of that text    *)
(*                   (strings made from Rust text have no spelling yet)    *)
(* A mode is [pretty, ind, nl]; ind and nl matter only when pretty.        *)
(***************************************************************************)
EXTENDS JsonValue

CompactMode == [pretty |-> FALSE, ind |-> <<>>, nl |-> <<>>]
PrettyMode(i, n) == [pretty |-> TRUE, ind |-> i, nl |-> n]

InitWriter(v, mode) == [todo |-> <<<<"v", v, 0>>>>, out |-> <<>>, mode |-> mode]

\* appending bytes to the output keeps pieces maximal
Put(out, p) ==
  IF p[1] = "l" /\ p[2] = <<>> THEN out
  ELSE IF p[1] = "l" /\ out # <<>> /\ out[Len(out)][1] = "l"
       THEN [out EXCEPT ![Len(out)] = <<"l", @[2] \o p[2]>>]
       ELSE Append(out, p)

StrPiece(s) == IF s[1] = "j" THEN <<"l", <<QUOTE>> \o s[2] \o <<QUOTE>>>> ELSE <<"s", s[2]>>

RECURSIVE Rep(_, _)
Rep(b, n) == IF n = 0 THEN <<>> ELSE b \o Rep(b, n - 1)
Break(mode, lvl) == IF mode.pretty THEN <<"l", mode.nl \o Rep(mode.ind, lvl)>> ELSE <<"l", <<>>>>

\* the tasks a container turns into
Body(t, lvl, n) ==
  LET RECURSIVE F(_)
      F(i) == IF i > n THEN <<>>
              ELSE <<<<"br", lvl + 1>>>>
                   \o (IF t[1] = "obj" THEN <<<<"key", t[2][i][1]>>, <<"v", t[2][i][2], lvl + 1>>>>
                       ELSE <<<<"v", t[2][i], lvl + 1>>>>)
                   \o (IF i < n THEN <<<<"b", <<COMMA>>>>>> ELSE <<<<"br", lvl>>>>)
                   \o F(i + 1)
  IN F(1)
Tasks(t, lvl) == <<<<"b", <<IF t[1] = "obj" THEN LBRACE ELSE LBRACK>>>>>>
                 \o Body(t, lvl, Len(t[2]))
                 \o <<<<"b", <<IF t[1] = "obj" THEN RBRACE ELSE RBRACK>>>>>>

Leaf(t) == CASE t[1] = "null" -> <<"l", <<110, 117, 108, 108>>>>
             [] t[1] = "bool" -> <<"l", IF t[2] THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>>>
             [] t[1] = "num" -> <<"l", t[2]>>
             [] OTHER -> StrPiece(t[2])

WriteStep(w) ==
  LET t == Head(w.todo)
      rest == [w EXCEPT !.todo = Tail(@)]
  IN CASE t[1] = "v" /\ t[2][1] \in {"arr", "obj"} -> [rest EXCEPT !.todo = Tasks(t[2], t[3]) \o @]
       [] t[1] = "v" -> [rest EXCEPT !.out = Put(@, Leaf(t[2]))]
       [] t[1] = "key" -> [rest EXCEPT !.out = Put(Put(@, StrPiece(t[2])),
                             <<"l", IF w.mode.pretty THEN <<COLON, SP>> ELSE <<COLON>>>>)]
       [] t[1] = "br" -> [rest EXCEPT !.out = Put(@, Break(w.mode, t[2]))]
       [] OTHER -> [rest EXCEPT !.out = Put(@, <<"l", t[2]>>)]
Writing(w) == w.todo # <<>>
RECURSIVE Written(_)
Written(w) == IF Writing(w) THEN Written(WriteStep(w)) ELSE w.out
Write(v, mode) == Written(InitWriter(v, mode))

\* ---------------------------------------------- the same, by recursion
RECURSIVE CompactText(_), Join(_, _)
SpelledStr(s) == <<QUOTE>> \o (IF s[1] = "j" THEN s[2] ELSE
                   LET RECURSIVE F(_)
                       F(i) == IF i > Len(s[2]) THEN <<>> ELSE
                          (IF MayBeRaw(s[2][i]) THEN Utf8Of(s[2][i]) ELSE NumEsc(s[2][i], FALSE)) \o F(i + 1)
                   IN F(1)) \o <<QUOTE>>
Join(parts, i) == IF i > Len(parts) THEN <<>>
  ELSE parts[i] \o (IF i < Len(parts) THEN <<COMMA>> ELSE <<>>) \o Join(parts, i + 1)
CompactText(t) ==
  CASE t[1] = "arr" -> <<LBRACK>> \o Join(TLCEval([i \in 1..Len(t[2]) |-> CompactText(t[2][i])]), 1) \o <<RBRACK>>
    [] t[1] = "obj" -> <<LBRACE>> \o Join(TLCEval([i \in 1..Len(t[2]) |-> SpelledStr(t[2][i][1]) \o <<COLON>> \o CompactText(t[2][i][2])]), 1) \o <<RBRACE>>
    [] t[1] = "str" -> SpelledStr(t[2])
    [] OTHER -> Leaf(t)[2]

\* the output as bytes, with some spelling for the open ones
RECURSIVE Bytes(_, _)
Bytes(out, i) == IF i > Len(out) THEN <<>>
  ELSE (IF out[i][1] = "l" THEN out[i][2] ELSE SpelledStr(<<"r", out[i][2]>>)) \o Bytes(out, i + 1)
=============================================================================
