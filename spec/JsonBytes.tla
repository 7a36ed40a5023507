----------------------------- MODULE JsonBytes -----------------------------
(***************************************************************************)
(* Byte level vocabulary of RFC 8259 (JSON) and RFC 3629 (UTF-8).          *)
(* Bytes and code points are natural numbers.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Byte == 0..255

SP == 32   TAB == 9   LF == 10   CR == 13
QUOTE == 34   BSL == 92   SLASH == 47
LBRACE == 123   RBRACE == 125   LBRACK == 91   RBRACK == 93
COMMA == 44   COLON == 58
MINUS == 45   PLUS == 43   DOT == 46

IsWs(b)    == b = SP \/ b = LF \/ b = TAB \/ b = CR
IsDigit(b) == b >= 48 /\ b <= 57
IsStruct(b) == b \in {LBRACE, RBRACE, LBRACK, RBRACK, COMMA, COLON}

\* value of a hexadecimal digit, or -1
HexVal(b) == IF b >= 48 /\ b <= 57 THEN b - 48
             ELSE IF b >= 97 /\ b <= 102 THEN b - 87
             ELSE IF b >= 65 /\ b <= 70 THEN b - 55
             ELSE -1

(* UTF-8 (RFC 3629, section 4).  For a lead byte: how many continuation    *)
(* bytes follow, the admissible range of the first of them, and the bits   *)
(* the lead byte contributes.  need = 0 means "not a lead byte".           *)
Utf8Lead(b) ==
  IF b >= 194 /\ b <= 223 THEN [need |-> 1, lo |-> 128, hi |-> 191, acc |-> b - 192]
  ELSE IF b = 224 THEN [need |-> 2, lo |-> 160, hi |-> 191, acc |-> 0]
  ELSE IF b = 237 THEN [need |-> 2, lo |-> 128, hi |-> 159, acc |-> 13]
  ELSE IF b >= 225 /\ b <= 239 THEN [need |-> 2, lo |-> 128, hi |-> 191, acc |-> b - 224]
  ELSE IF b = 240 THEN [need |-> 3, lo |-> 144, hi |-> 191, acc |-> 0]
  ELSE IF b >= 241 /\ b <= 243 THEN [need |-> 3, lo |-> 128, hi |-> 191, acc |-> b - 240]
  ELSE IF b = 244 THEN [need |-> 3, lo |-> 128, hi |-> 143, acc |-> 4]
  ELSE [need |-> 0, lo |-> 0, hi |-> 0, acc |-> 0]

\* number of bytes of the UTF-8 form of a scalar value
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

\* the UTF-8 form itself
Utf8Of(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64),
         128 + ((c \div 64) % 64), 128 + (c % 64)>>

RECURSIVE Utf8Encode(_)
Utf8Encode(cps) == IF cps = <<>> THEN <<>>
                   ELSE Utf8Of(Head(cps)) \o Utf8Encode(Tail(cps))

IsSurrogate(c) == c >= 55296 /\ c <= 57343
IsHighSur(c)   == c >= 55296 /\ c <= 56319
IsLowSur(c)    == c >= 56320 /\ c <= 57343
IsScalar(c)    == c >= 0 /\ c <= 1114111 /\ ~IsSurrogate(c)
SurrogatePair(h, l) == 65536 + (h - 55296) * 1024 + (l - 56320)

\* "the lead byte decides" transition system for UTF-8, used on whole inputs
RECURSIVE Utf8ValidFrom(_, _, _, _, _)
Utf8ValidFrom(s, i, need, lo, hi) ==
  IF i > Len(s) THEN need = 0
  ELSE LET b == s[i] IN
       IF need > 0
       THEN b >= lo /\ b <= hi /\ Utf8ValidFrom(s, i + 1, need - 1, 128, 191)
       ELSE IF b < 128 THEN Utf8ValidFrom(s, i + 1, 0, 0, 0)
       ELSE LET l == Utf8Lead(b) IN
            l.need > 0 /\ Utf8ValidFrom(s, i + 1, l.need, l.lo, l.hi)
Utf8Valid(s) == Utf8ValidFrom(s, 1, 0, 0, 0)
=============================================================================
