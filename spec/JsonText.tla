------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* The reading side of justjson as a byte-fed transition system.           *)
(*                                                                         *)
(* The state of a parse is a record ("machine"): the lexical mode inside   *)
(* the current token, the grammatical context a finished token is judged   *)
(* in, and the stack of open containers.  StepByte consumes one byte,      *)
(* Finish is the end of the input.  `out` holds the delegate calls the     *)
(* last step made: the parser's observable behaviour is the concatenation  *)
(* of all `out`s, plus the final verdict.                                  *)
(*                                                                         *)
(* Offsets are 0-based byte offsets, as in the API.                        *)
(***************************************************************************)
EXTENDS JsonBytes, TLC
LOCAL INSTANCE SequencesExt

(* What `\b` decodes to.  RFC 8259: U+0008.  justjson decodes it to U+0007 *)
(* (known finding: the repository's own tests pin that), so the constant   *)
(* is set from what the implementation under test is observed to do, and   *)
(* the check of C09/C10 reports the deviation by name.                     *)
CONSTANT BackspaceCP

NoLimit == -1
NoErr == [k |-> "", alt |-> "", b |-> -1, lo |-> 0, hi |-> 0]

DefaultCfg == [tc |-> FALSE, lim |-> 128, roots |-> TRUE]

InitMachine(cfg) ==
  [ pos |-> 0,          \* bytes consumed
    st  |-> "ws",       \* lexical mode
    x   |-> <<>>,       \* mode-specific scratch
    ts  |-> 0,          \* offset of the current token
    an  |-> 0,          \* end of the last token the grammar accepted
    ctx |-> "root",     \* what the grammar expects next
    stk |-> <<>>,       \* open containers, innermost last
    cps |-> <<>>,       \* decoded text of the current string
    esc |-> FALSE,      \* has the current string seen an escape?
    err |-> NoErr,
    out |-> <<>>,
    cfg |-> cfg ]

Live(m) == m.st # "err" /\ m.st # "ok"

\* The same lexer without a grammar: what a Tokenizer sees.
InitTokenizer(cfg) == [InitMachine(cfg) EXCEPT !.ctx = "tok"]

\* ---------------------------------------------------------------- errors

Fail(m, kind, alt, byte, at) ==
  [m EXCEPT !.st = "err",
            !.err = [k |-> kind, alt |-> alt, b |-> byte, lo |-> m.an, hi |-> at]]

Unclosed(m) == IF m.stk = <<>> THEN "UnexpectedEof"
               ELSE IF m.stk[Len(m.stk)].k = "o" THEN "UnclosedObject" ELSE "UnclosedArray"

\* An error found while reading a token.  Where a colon is required every such
\* error is reported as the missing colon.
LexFail(m, kind, byte, at) ==
  IF m.ctx = "colon" THEN Fail(m, "ExpectedColon", "", -1, at)
  ELSE Fail(m, kind, "", byte, at)

EofFail(m, alt) ==
  IF m.ctx = "colon" THEN Fail(m, "ExpectedColon", "", -1, m.pos)
  ELSE Fail(m, Unclosed(m), alt, -1, m.pos)

\* --------------------------------------------------------------- grammar

Emit(m, e) == [m EXCEPT !.out = Append(@, e)]

\* a value just ended; `container` tells whether it was an array or object
AfterValue(m, container) ==
  IF m.stk = <<>>
  THEN IF ~m.cfg.roots /\ ~container
       THEN [Fail(m, "PayloadsShouldBeObjectOrArray", "", -1, m.pos) EXCEPT !.err.lo = 0]
       ELSE [m EXCEPT !.ctx = "end"]
  ELSE LET d == Len(m.stk)
           f == m.stk[d]
       IN IF f.k = "o"
          THEN [m EXCEPT !.out = Append(@, <<"ov">>), !.stk[d].n = @ + 1, !.ctx = "ocomma"]
          ELSE [m EXCEPT !.out = Append(@, <<"av">>), !.stk[d].n = @ + 1, !.ctx = "acomma"]

\* `before`: the end of what precedes the bracket
Open(m, k, before) ==
  IF m.cfg.lim # NoLimit /\ Len(m.stk) >= m.cfg.lim
  THEN [Fail(m, "RecursionLimitReached", "", -1, m.ts) EXCEPT !.err.lo = before]
  ELSE [m EXCEPT !.out = Append(@, <<IF k = "o" THEN "obj" ELSE "arr">>),
                 !.stk = Append(@, [k |-> k, n |-> 0]),
                 !.ctx = IF k = "o" THEN "key0" ELSE "arr0"]

Close(m) ==
  LET d == Len(m.stk)
      f == m.stk[d]
      c == [m EXCEPT !.out = Append(@, <<IF f.k = "o" THEN "oend" ELSE "aend", f.n>>),
                     !.stk = SubSeq(@, 1, d - 1)]
  IN AfterValue(c, TRUE)

StringEvent(m, name, e) ==
  <<name, m.ts + 1, e - 1, m.esc, m.cps>>

\* tk: token class; e: offset one past the token; n: token-specific payload
OnToken(m0, tk, e) ==
  LET m == [m0 EXCEPT !.st = "ws", !.x = <<>>]
      ok == [m EXCEPT !.an = e]
      at == m.ts
      bad(kind) == Fail(m, kind, "", -1, m.pos)
      byteOf == CASE tk = "}" -> RBRACE [] tk = "]" -> RBRACK
                  [] tk = ":" -> COLON [] tk = "," -> COMMA [] OTHER -> -1
      value ==
        CASE tk = "null" -> AfterValue(Emit(ok, <<"null">>), FALSE)
          [] tk = "true" -> AfterValue(Emit(ok, <<"bool", TRUE>>), FALSE)
          [] tk = "false" -> AfterValue(Emit(ok, <<"bool", FALSE>>), FALSE)
          [] tk = "num" -> AfterValue(Emit(ok, <<"num", m.ts, e>>), FALSE)
          [] tk = "str" -> AfterValue(Emit(ok, StringEvent(m, "str", e)), FALSE)
          [] tk = "{" -> Open(ok, "o", m.an)
          [] tk = "[" -> Open(ok, "a", m.an)
          [] OTHER -> Fail(m, "Unexpected", "", byteOf, at)
  IN CASE m.ctx = "root" \/ m.ctx = "oval" -> value
       [] m.ctx = "arr0" -> IF tk = "]" THEN Close(ok) ELSE value
       [] m.ctx = "arr1" ->
            IF tk = "]" THEN IF m.cfg.tc THEN Close(ok) ELSE bad("IllegalTrailingComma")
            ELSE value
       [] m.ctx = "key0" \/ m.ctx = "key1" ->
            CASE tk = "str" -> [Emit(ok, StringEvent(m, "key", e)) EXCEPT !.ctx = "colon"]
              [] tk = "}" -> IF m.ctx = "key0" \/ m.cfg.tc THEN Close(ok)
                             ELSE bad("IllegalTrailingComma")
              [] tk \in {"]", ":", ","} -> bad("ExpectedObjectKey")
              [] OTHER -> bad("ObjectKeysMustBeStrings")
       [] m.ctx = "colon" ->
            IF tk = ":" THEN [ok EXCEPT !.ctx = "oval"] ELSE bad("ExpectedColon")
       [] m.ctx = "ocomma" ->
            CASE tk = "}" -> Close(ok)
              [] tk = "," -> [ok EXCEPT !.ctx = "key1"]
              [] OTHER -> bad("ExpectedCommaOrEndOfObject")
       [] m.ctx = "acomma" ->
            CASE tk = "]" -> Close(ok)
              [] tk = "," -> [ok EXCEPT !.ctx = "arr1"]
              [] OTHER -> bad("ExpectedCommaOrEndOfArray")
       [] m.ctx = "tok" ->       \* no grammar: just report the token
            Emit(ok, IF tk = "str" THEN <<"tok", tk, m.ts, e, m.esc, m.cps>>
                     ELSE <<"tok", tk, m.ts, e>>)

\* ----------------------------------------------------------------- lexer

Literal(n) == CASE n = "true" -> <<116, 114, 117, 101>>
                [] n = "false" -> <<102, 97, 108, 115, 101>>
                [] OTHER -> <<110, 117, 108, 108>>

Begin(m, mode, x) == [m EXCEPT !.st = mode, !.x = x, !.ts = m.pos]

\* first byte of a token (b is not whitespace); m.pos is its offset
StartToken(m, b) ==
  IF m.ctx = "end" THEN Fail(m, "TrailingNonWhitespace", "", -1, m.pos)
  ELSE LET t == [m EXCEPT !.ts = m.pos] IN
  CASE b = LBRACE -> OnToken(t, "{", m.pos + 1)
    [] b = RBRACE -> OnToken(t, "}", m.pos + 1)
    [] b = LBRACK -> OnToken(t, "[", m.pos + 1)
    [] b = RBRACK -> OnToken(t, "]", m.pos + 1)
    [] b = COMMA  -> OnToken(t, ",", m.pos + 1)
    [] b = COLON  -> OnToken(t, ":", m.pos + 1)
    [] b = QUOTE  -> [Begin(m, "str", <<>>) EXCEPT !.cps = <<>>, !.esc = FALSE]
    [] b = MINUS  -> Begin(m, "sign", <<>>)
    [] b = 48     -> Begin(m, "zero", <<>>)
    [] b >= 49 /\ b <= 57 -> Begin(m, "int", <<>>)
    [] b = 116 -> Begin(m, "lit", <<"true", 1>>)
    [] b = 102 -> Begin(m, "lit", <<"false", 1>>)
    [] b = 110 -> Begin(m, "lit", <<"null", 1>>)
    [] OTHER -> LexFail(m, "Unexpected", b, m.pos)

\* between tokens
StepWs(m, b) == IF IsWs(b) THEN m ELSE StartToken(m, b)

StepLit(m, b) ==
  LET name == m.x[1]
      i == m.x[2]
      w == Literal(name)
  IN IF b # w[i + 1] THEN LexFail(m, "Unexpected", b, m.pos)
     ELSE IF i + 1 = Len(w) THEN OnToken(m, name, m.pos + 1)
     ELSE [m EXCEPT !.x = <<name, i + 1>>]

PushCp(m, c) == [m EXCEPT !.st = "str", !.x = <<>>, !.cps = Append(@, c)]

StepStr(m, b) ==
  CASE b = QUOTE -> OnToken(m, "str", m.pos + 1)
    [] b = BSL -> [m EXCEPT !.st = "esc", !.esc = TRUE]
    [] b < 32 -> LexFail(m, "Unexpected", b, m.pos)
    [] b < 128 -> PushCp(m, b)
    [] OTHER -> LET l == Utf8Lead(b) IN
                IF l.need = 0 THEN LexFail(m, "Utf8", -1, m.pos)
                ELSE [m EXCEPT !.st = "u8", !.x = <<l.need, l.lo, l.hi, l.acc>>]

StepU8(m, b) ==
  IF b < m.x[2] \/ b > m.x[3] THEN LexFail(m, "Utf8", -1, m.pos)
  ELSE LET acc == m.x[4] * 64 + (b - 128) IN
       IF m.x[1] = 1 THEN PushCp(m, acc)
       ELSE [m EXCEPT !.x = <<m.x[1] - 1, 128, 191, acc>>]

StepEsc(m, b) ==
  CASE b = QUOTE \/ b = BSL \/ b = SLASH -> PushCp(m, b)
    [] b = 98  -> PushCp(m, BackspaceCP)   \* \b
    [] b = 102 -> PushCp(m, 12)            \* \f
    [] b = 110 -> PushCp(m, 10)            \* \n
    [] b = 114 -> PushCp(m, 13)            \* \r
    [] b = 116 -> PushCp(m, 9)             \* \t
    [] b = 117 -> [m EXCEPT !.st = "hex", !.x = <<0, 0>>]
    [] OTHER -> LexFail(m, "InvalidEscape", -1, m.pos)

\* x = <<digits read, value so far>>
StepHex(m, b) ==
  LET v == HexVal(b) IN
  IF v < 0 THEN LexFail(m, "InvalidHexadecimal", -1, m.pos)
  ELSE LET n == m.x[1] + 1
           acc == m.x[2] * 16 + v
       IN IF n < 4 THEN [m EXCEPT !.x = <<n, acc>>]
          ELSE IF IsHighSur(acc) THEN [m EXCEPT !.st = "lowbs", !.x = <<acc>>]
          ELSE IF IsLowSur(acc) THEN LexFail(m, "Utf8", -1, m.pos)
          ELSE PushCp(m, acc)

StepLowBs(m, b) == IF b = BSL THEN [m EXCEPT !.st = "lowu"] ELSE LexFail(m, "Utf8", -1, m.pos)
StepLowU(m, b)  == IF b = 117 THEN [m EXCEPT !.st = "lowhex", !.x = <<m.x[1], 0, 0>>]
                   ELSE LexFail(m, "Utf8", -1, m.pos)
StepLowHex(m, b) ==
  LET v == HexVal(b) IN
  IF v < 0 THEN LexFail(m, "InvalidHexadecimal", -1, m.pos)
  ELSE LET n == m.x[2] + 1
           acc == m.x[3] * 16 + v
       IN IF n < 4 THEN [m EXCEPT !.x = <<m.x[1], n, acc>>]
          ELSE IF IsLowSur(acc) THEN PushCp(m, SurrogatePair(m.x[1], acc))
          ELSE LexFail(m, "Utf8", -1, m.pos)

\* A number has no terminator of its own: the byte after it is read again.
EndNumber(m) == OnToken(m, "num", m.pos)
AfterNumber(m, b) == LET n == EndNumber(m) IN IF Live(n) THEN StepWs(n, b) ELSE n

IsE(b) == b = 101 \/ b = 69

StepNumber(m, b) ==
  CASE m.st = "sign" ->
         CASE b = 48 -> [m EXCEPT !.st = "zero"]
           [] b >= 49 /\ b <= 57 -> [m EXCEPT !.st = "int"]
           [] OTHER -> LexFail(m, "ExpectedDigit", -1, m.pos)
    [] m.st = "zero" ->
         CASE b = DOT -> [m EXCEPT !.st = "dot"]
           [] IsE(b) -> [m EXCEPT !.st = "e"]
           [] OTHER -> AfterNumber(m, b)
    [] m.st = "int" ->
         CASE IsDigit(b) -> m
           [] b = DOT -> [m EXCEPT !.st = "dot"]
           [] IsE(b) -> [m EXCEPT !.st = "e"]
           [] OTHER -> AfterNumber(m, b)
    [] m.st = "dot" ->
         IF IsDigit(b) THEN [m EXCEPT !.st = "frac"]
         ELSE LexFail(m, "ExpectedDecimalDigit", -1, m.pos)
    [] m.st = "frac" ->
         CASE IsDigit(b) -> m
           [] IsE(b) -> [m EXCEPT !.st = "e"]
           [] OTHER -> AfterNumber(m, b)
    [] m.st = "e" ->
         CASE IsDigit(b) -> [m EXCEPT !.st = "exp"]
           [] b = PLUS \/ b = MINUS -> [m EXCEPT !.st = "esign"]
           [] OTHER -> LexFail(m, "ExpectedExponent", -1, m.pos)
    [] m.st = "esign" ->
         IF IsDigit(b) THEN [m EXCEPT !.st = "exp"]
         ELSE LexFail(m, "ExpectedExponent", -1, m.pos)
    [] m.st = "exp" -> IF IsDigit(b) THEN m ELSE AfterNumber(m, b)

NumberModes == {"sign", "zero", "int", "dot", "frac", "e", "esign", "exp"}
NumberFinal == {"zero", "int", "frac", "exp"}

StepByte(m0, b) ==
  LET m == [m0 EXCEPT !.out = <<>>]
      n == CASE m.st = "ws" -> StepWs(m, b)
             [] m.st = "str" -> StepStr(m, b)
             [] m.st = "esc" -> StepEsc(m, b)
             [] m.st = "hex" -> StepHex(m, b)
             [] m.st = "u8" -> StepU8(m, b)
             [] m.st = "lit" -> StepLit(m, b)
             [] m.st = "lowbs" -> StepLowBs(m, b)
             [] m.st = "lowu" -> StepLowU(m, b)
             [] m.st = "lowhex" -> StepLowHex(m, b)
             [] m.st \in NumberModes -> StepNumber(m, b)
  IN IF Live(n) THEN [n EXCEPT !.pos = @ + 1] ELSE n

\* the end of the input
FinishWs(m) == IF m.ctx \in {"end", "tok"} THEN [m EXCEPT !.st = "ok"] ELSE EofFail(m, "")

Finish(m0) ==
  LET m == [m0 EXCEPT !.out = <<>>] IN
  CASE ~Live(m0) -> m0
    [] m.st = "ws" -> FinishWs(m)
    [] m.st \in NumberFinal -> LET n == EndNumber(m) IN IF Live(n) THEN FinishWs(n) ELSE n
    [] m.st = "sign" -> LexFail(m, "ExpectedDigit", -1, m.pos)
    [] m.st = "dot" -> LexFail(m, "ExpectedDecimalDigit", -1, m.pos)
    [] m.st \in {"e", "esign"} -> LexFail(m, "ExpectedExponent", -1, m.pos)
    [] m.st = "str" -> LexFail(m, "UnclosedString", -1, m.pos)
    [] m.st = "u8" -> LexFail(m, "Utf8", -1, m.pos)
    [] m.st = "lit" -> EofFail(m, "")
    [] OTHER -> EofFail(m, "UnclosedString")     \* inside an escape

\* ------------------------------------------------------------- whole texts

\* feed a sequence of bytes; `acc` collects the delegate calls
Feed(m, s) == FoldLeft(LAMBDA r, b : IF ~Live(r.m) THEN r ELSE LET n == StepByte(r.m, b) IN [m |-> n, ev |-> r.ev \o n.out],
                       [m |-> m, ev |-> <<>>], s)

Parse(s, cfg) ==
  LET f == Feed(InitMachine(cfg), s)
  IN IF Live(f.m) THEN LET e == Finish(f.m) IN [m |-> e, ev |-> f.ev \o e.out] ELSE f

Accepts(s, cfg) == Parse(s, cfg).m.st = "ok"

StringModes == {"str", "esc", "hex", "lowbs", "lowu", "lowhex", "u8"}

\* inside a token that will be refused when it ends
Doomed(m) == /\ m.st # "ws" /\ Live(m)
             /\ \/ m.ctx \in {"colon", "ocomma", "acomma"}
                \/ m.ctx \in {"key0", "key1"} /\ m.st \notin StringModes

\* a shortest way to complete a viable prefix into a text (for test synthesis)
RECURSIVE CloseAll(_, _)
CloseAll(stk, i) == IF i = 0 THEN <<>>
  ELSE <<IF stk[i].k = "o" THEN RBRACE ELSE RBRACK>> \o CloseAll(stk, i - 1)

\* bytes that complete the current token
CompleteToken(m) ==
  CASE m.st = "ws" -> <<>>
    [] m.st = "str" -> <<QUOTE>>
    [] m.st = "esc" -> <<110, QUOTE>>
    [] m.st = "hex" -> IF m.x[1] = 0 THEN <<48, 48, 48, 49, QUOTE>>
                       ELSE IF m.x[1] = 1 /\ m.x[2] = 13 THEN <<49, 48, 48, QUOTE>>
                       ELSE IF m.x[1] = 2 /\ m.x[2] >= 216 /\ m.x[2] <= 219
                            THEN <<48, 48, BSL, 117, 100, 99, 48, 49, QUOTE>>
                       ELSE IF m.x[1] = 3 /\ m.x[2] >= 3456 /\ m.x[2] <= 3519
                            THEN <<48, BSL, 117, 100, 102, 48, 49, QUOTE>>
                       ELSE [i \in 1..(4 - m.x[1]) |-> 49] \o <<QUOTE>>
    [] m.st = "lowbs" -> <<BSL, 117, 100, 99, 48, 49, QUOTE>>
    [] m.st = "lowu" -> <<117, 100, 99, 48, 49, QUOTE>>
    [] m.st = "lowhex" -> SubSeq(<<100, 99, 48, 49>>, m.x[2] + 1, 4) \o <<QUOTE>>
    [] m.st = "u8" -> <<m.x[2]>> \o [i \in 1..(m.x[1] - 1) |-> 191] \o <<QUOTE>>
    [] m.st = "lit" -> LET w == Literal(m.x[1]) IN SubSeq(w, m.x[2] + 1, Len(w))
    [] m.st \in {"sign", "dot", "e", "esign"} -> <<49>>
    [] OTHER -> <<>>

\* bytes that make the innermost construct complete once the token is
CompleteContext(m) ==
  LET mid == m.st # "ws"
  IN CASE m.ctx = "colon" -> <<COLON, 49>>
       [] m.ctx \in {"key0", "key1"} ->
            IF mid THEN <<COLON, 49>>
            ELSE IF m.ctx = "key0" \/ m.cfg.tc THEN <<>> ELSE <<QUOTE, QUOTE, COLON, 49>>
       [] m.ctx \in {"root", "oval", "arr1"} -> IF mid THEN <<>> ELSE
            (IF m.cfg.roots \/ m.ctx # "root" THEN <<49>> ELSE <<LBRACK, RBRACK>>)
       [] OTHER -> <<>>

Completion(m) == CompleteToken(m) \o CompleteContext(m) \o CloseAll(m.stk, Len(m.stk))
=============================================================================
