----------------------------- MODULE TokCursor -----------------------------
(***************************************************************************)
(* A tokenizer over a fixed input: an offset, and the operations that move *)
(* it.  What lies at an offset is decided by the lexer of JsonText without *)
(* its grammar.                                                            *)
(*   [off, an, broken]   an: end of the last token                         *)
(* After a lexical error nothing is specified any more.                    *)
(***************************************************************************)
EXTENDS JsonText

InitTok == [off |-> 0, an |-> 0, broken |-> FALSE]

RECURSIVE SkipWs(_, _)
SkipWs(s, o) == IF o < Len(s) /\ IsWs(s[o + 1]) THEN SkipWs(s, o + 1) ELSE o

RECURSIVE Lex(_, _)
Lex(m, s) ==
  LET done == m.pos >= Len(s)
      n == IF done THEN Finish(m) ELSE StepByte(m, s[m.pos + 1])
  IN CASE n.out # <<>> -> [r |-> n.out[1], err |-> NoErr]
       [] n.st = "err" -> [r |-> <<"err">>, err |-> n.err]
       [] done -> [r |-> <<"none">>, err |-> NoErr]
       [] OTHER -> Lex(n, s)
At(s, t) == Lex([InitTokenizer(DefaultCfg) EXCEPT !.pos = t.off, !.an = t.an], s)

PeekKind(s, o) ==
  IF o >= Len(s) THEN "none"
  ELSE LET b == s[o + 1] IN
    CASE b = LBRACE -> "Object" [] b = RBRACE -> "ObjectEnd" [] b = LBRACK -> "Array" [] b = RBRACK -> "ArrayEnd"
      [] b = COMMA -> "Comma" [] b = COLON -> "Colon" [] b = QUOTE -> "String"
      [] b = MINUS \/ IsDigit(b) -> "Number" [] b = 116 -> "True" [] b = 102 -> "False" [] b = 110 -> "Null"
      [] OTHER -> "Unrecognized"

\* operation -> <<result, new state>>; results:
\*   <<"peek", kind>>   <<"tok", class, from, to, ..>>   <<"none">>   <<"err", kind, alt, byte, lo, hi>>
DoPeek(s, t) == LET o == SkipWs(s, t.off) IN <<<<"peek", PeekKind(s, o)>>, [t EXCEPT !.off = o]>>
ErrOf(e) == <<"err", e.k, e.alt, e.b, e.lo, e.hi>>
DoRead(s, t, eof) ==
  LET a == At(s, t) IN
  CASE a.r[1] = "tok" -> <<a.r, [t EXCEPT !.off = a.r[4], !.an = a.r[4]]>>
    [] a.r[1] = "none" -> <<IF eof THEN <<"err", "UnexpectedEof", "", -1, t.an, Len(s)>> ELSE <<"none">>, [t EXCEPT !.off = Len(s)]>>
    [] OTHER -> <<ErrOf(a.err), [t EXCEPT !.broken = TRUE]>>
Do(op, s, t) == CASE op = "p" -> DoPeek(s, t) [] op = "n" -> DoRead(s, t, FALSE) [] OTHER -> DoRead(s, t, TRUE)
=============================================================================
