------------------------------ MODULE JsonStr ------------------------------
(***************************************************************************)
(* Strings as justjson holds them.  A string is a text (a sequence of      *)
(* scalar values) in one of two representations:                           *)
(*   [r |-> "json", b |-> bytes]  the body of a JSON literal               *)
(*   [r |-> "raw",  t |-> cps]    text that has no JSON form yet           *)
(* Everything a user can observe of it is a function of the text, except   *)
(* what concerns the JSON form.                                            *)
(***************************************************************************)
EXTENDS JsonText

\* the parser machine decides what a literal means
ParseBody(b) == Parse(<<QUOTE>> \o b \o <<QUOTE>>, DefaultCfg)
IsBody(b) == LET p == ParseBody(b) IN p.m.st = "ok" /\ Len(p.ev) = 1 /\ p.ev[1][1] = "str"
                                      /\ p.ev[1][3] = Len(b) + 1
TextOfBody(b) == ParseBody(b).ev[1][5]
EscapesIn(b) == ParseBody(b).ev[1][4]

TextOf(s) == IF s.r = "json" THEN TextOfBody(s.b) ELSE s.t

\* ------------------------------------------------------------ comparison
\* Two cursors, one per text: the verdict falls at the first difference.
InitCompare(x, y) == [x |-> x, y |-> y, i |-> 0, v |-> "?"]
StepCompare(c) ==
  LET i == c.i + 1 IN
  CASE i > Len(c.x) /\ i > Len(c.y) -> [c EXCEPT !.v = "eq"]
    [] i > Len(c.x) -> [c EXCEPT !.v = "lt"]
    [] i > Len(c.y) -> [c EXCEPT !.v = "gt"]
    [] c.x[i] < c.y[i] -> [c EXCEPT !.v = "lt"]
    [] c.x[i] > c.y[i] -> [c EXCEPT !.v = "gt"]
    [] OTHER -> [c EXCEPT !.i = i]
RECURSIVE RunCompare(_)
RunCompare(c) == IF c.v = "?" THEN RunCompare(StepCompare(c)) ELSE c.v
Compare(x, y) == RunCompare(InitCompare(x, y))
Cmp(x, y) == LET v == Compare(x, y) IN CASE v = "lt" -> -1 [] v = "gt" -> 1 [] OTHER -> 0

\* -------------------------------------------------------------- spelling
HexDigit(v, upper) == IF v < 10 THEN 48 + v ELSE IF upper THEN 55 + v ELSE 87 + v
UEsc(u, upper) == <<BSL, 117, HexDigit(u \div 4096, upper), HexDigit((u \div 256) % 16, upper),
                    HexDigit((u \div 16) % 16, upper), HexDigit(u % 16, upper)>>
NumEsc(c, upper) == IF c < 65536 THEN UEsc(c, upper)
                    ELSE UEsc(55296 + ((c - 65536) \div 1024), upper) \o UEsc(56320 + ((c - 65536) % 1024), ~upper)
ShortOf(c) == CASE c = QUOTE -> QUOTE [] c = BSL -> BSL [] c = SLASH -> SLASH [] c = BackspaceCP -> 98
                [] c = 12 -> 102 [] c = 10 -> 110 [] c = 13 -> 114 [] c = 9 -> 116 [] OTHER -> -1
MayBeRaw(c) == c >= 32 /\ c # QUOTE /\ c # BSL
\* the ways to write one character in a JSON string
Spellings(c) == (IF MayBeRaw(c) THEN {Utf8Of(c)} ELSE {})
                \cup (IF ShortOf(c) >= 0 THEN {<<BSL, ShortOf(c)>>} ELSE {})
                \cup {NumEsc(c, TRUE), NumEsc(c, FALSE)}

\* ------------------------------------------------------ what is measured
TextBytes(x) == Len(Utf8Encode(x))
=============================================================================
