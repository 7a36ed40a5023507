---------------------------- MODULE JsonGrammar ----------------------------
(***************************************************************************)
(* RFC 8259 written down declaratively, rule by rule, as predicates        *)
(* "s[i..j] is a <rule>" (i > j is the empty string).  This module shares  *)
(* nothing with the machine of JsonText but the byte names; MCGrammar      *)
(* checks that the two define the same language.                           *)
(***************************************************************************)
EXTENDS JsonBytes

Ws(s, i, j) == \A k \in i..j : IsWs(s[k])

Is(s, i, j, w) == j - i + 1 = Len(w) /\ \A k \in 1..Len(w) : s[i + k - 1] = w[k]

Digits(s, i, j) == i <= j /\ \A k \in i..j : IsDigit(s[k])
GInt(s, i, j) == (i = j /\ s[i] = 48) \/ (Digits(s, i, j) /\ s[i] # 48)
GFrac(s, i, j) == i > j \/ (s[i] = DOT /\ Digits(s, i + 1, j))
GExp(s, i, j) == i > j \/ (s[i] \in {69, 101}
                   /\ (Digits(s, i + 1, j)
                       \/ (i < j /\ s[i + 1] \in {PLUS, MINUS} /\ Digits(s, i + 2, j))))
GNumber(s, i, j) ==
  i <= j /\
  LET st == IF s[i] = MINUS THEN i + 1 ELSE i IN
  \E p \in st..j : GInt(s, st, p) /\
     \E q \in p..j : GFrac(s, p + 1, q) /\ GExp(s, q + 1, j)

Hex4(s, i) == 4096 * HexVal(s[i]) + 256 * HexVal(s[i + 1]) + 16 * HexVal(s[i + 2]) + HexVal(s[i + 3])
AllHex(s, i, j) == \A k \in i..j : HexVal(s[k]) >= 0

\* one character of a string body: a scalar in UTF-8, an escape, or a pair
GChar(s, i, j) ==
  \/ i = j /\ s[i] >= 32 /\ s[i] < 128 /\ s[i] # QUOTE /\ s[i] # BSL
  \/ i < j /\ s[i] >= 128 /\ \E c \in {LET n == j - i + 1 IN
          IF n = 2 THEN (s[i] - 192) * 64 + (s[j] - 128)
          ELSE IF n = 3 THEN (s[i] - 224) * 4096 + (s[i + 1] - 128) * 64 + (s[j] - 128)
          ELSE IF n = 4 THEN (s[i] - 240) * 262144 + (s[i + 1] - 128) * 4096
                             + (s[i + 2] - 128) * 64 + (s[j] - 128)
          ELSE -1} :
          IsScalar(c) /\ Utf8Of(c) = SubSeq(s, i, j)
  \/ j = i + 1 /\ s[i] = BSL /\ s[j] \in {QUOTE, BSL, SLASH, 98, 102, 110, 114, 116}
  \/ j = i + 5 /\ s[i] = BSL /\ s[i + 1] = 117 /\ AllHex(s, i + 2, j)
       /\ ~IsSurrogate(Hex4(s, i + 2))
  \/ j = i + 11 /\ s[i] = BSL /\ s[i + 1] = 117 /\ AllHex(s, i + 2, i + 5)
       /\ s[i + 6] = BSL /\ s[i + 7] = 117 /\ AllHex(s, i + 8, j)
       /\ IsHighSur(Hex4(s, i + 2)) /\ IsLowSur(Hex4(s, i + 8))

RECURSIVE GBody(_, _, _)
GBody(s, i, j) == i > j \/ \E k \in i..j : GChar(s, i, k) /\ GBody(s, k + 1, j)
GString(s, i, j) == i < j /\ s[i] = QUOTE /\ s[j] = QUOTE /\ GBody(s, i + 1, j - 1)

RECURSIVE GValue(_, _, _), GElements(_, _, _), GMembers(_, _, _)
\* value with optional whitespace around it
GWsValue(s, i, j) == \E p \in i..j : \E q \in p..j :
   Ws(s, i, p - 1) /\ Ws(s, q + 1, j) /\ GValue(s, p, q)
GElements(s, i, j) == GWsValue(s, i, j)
   \/ \E c \in i..j : s[c] = COMMA /\ GWsValue(s, i, c - 1) /\ GElements(s, c + 1, j)
GMember(s, i, j) == \E c \in i..j : s[c] = COLON /\ GWsValue(s, c + 1, j)
   /\ \E p \in i..c : \E q \in p..(c - 1) :
        Ws(s, i, p - 1) /\ Ws(s, q + 1, c - 1) /\ GString(s, p, q)
GMembers(s, i, j) == GMember(s, i, j)
   \/ \E c \in i..j : s[c] = COMMA /\ GMember(s, i, c - 1) /\ GMembers(s, c + 1, j)
GValue(s, i, j) ==
  \/ Is(s, i, j, <<110, 117, 108, 108>>)
  \/ Is(s, i, j, <<116, 114, 117, 101>>)
  \/ Is(s, i, j, <<102, 97, 108, 115, 101>>)
  \/ GNumber(s, i, j)
  \/ GString(s, i, j)
  \/ (i < j /\ s[i] = LBRACK /\ s[j] = RBRACK
      /\ (Ws(s, i + 1, j - 1) \/ GElements(s, i + 1, j - 1)))
  \/ (i < j /\ s[i] = LBRACE /\ s[j] = RBRACE
      /\ (Ws(s, i + 1, j - 1) \/ GMembers(s, i + 1, j - 1)))

IsJsonText(s) == GWsValue(s, 1, Len(s))
=============================================================================
