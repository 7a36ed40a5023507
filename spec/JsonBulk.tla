------------------------------ MODULE JsonBulk ------------------------------
(***************************************************************************)
(* Texts by the thousand, as walks with run lengths.  A walk is a sequence *)
(* of moves:                                                               *)
(*   <<"open", k>>          a container ("o" or "a") is opened             *)
(*   <<"close">>            the innermost one is closed                    *)
(*   <<"leaf", s, n>>       n values of sort s, one after the other        *)
(*   <<"each", k, n, s, m>> n containers of kind k, of m leaves each       *)
(*   <<"blank", n>>         n bytes of white space                         *)
(*   <<"text", runs>>       one string: runs of <<piece, n>>               *)
(*   <<"digits", f, n>>     one number with a run of n digits in part f    *)
(* In an object every value has the key "k", a text has itself as its key. *)
(*                                                                         *)
(* Everything said about the text is arithmetic; Expand spells it out, to  *)
(* compare the arithmetic with the machines on small walks.                *)
(***************************************************************************)
EXTENDS JsonWrite, SequencesExt

Sorts == [num |-> <<49>>, nul |-> <<110, 117, 108, 108>>, str |-> <<QUOTE, 97, QUOTE>>, esc |-> <<QUOTE, BSL, 110, QUOTE>>]
Pieces == [ascii |-> <<97>>, acute |-> <<195, 169>>, euro |-> <<226, 130, 172>>, cat |-> <<240, 159, 152, 185>>, nl |-> <<BSL, 110>>,
           uacute |-> <<BSL, 117, 48, 48, 101, 57>>, upair |-> <<BSL, 117, 100, 56, 51, 100, BSL, 117, 100, 101, 51, 57>>]
\* bytes of the decoded piece
Decoded == [ascii |-> 1, acute |-> 2, euro |-> 3, cat |-> 4, nl |-> 1, uacute |-> 2, upair |-> 4]
KeyLen == 4      \* "k":
K == <<QUOTE, 107, QUOTE, COLON>>
RunsLen(runs) == FoldLeft(LAMBDA a, r : a + r[2] * Len(Pieces[r[1]]), 0, runs)
RunsDec(runs) == FoldLeft(LAMBDA a, r : a + r[2] * Decoded[r[1]], 0, runs)
RunsChars(runs) == FoldLeft(LAMBDA a, r : a + r[2], 0, runs)
RunsEsc(runs) == \E i \in 1..Len(runs) : runs[i][2] > 0 /\ runs[i][1] \in {"nl", "uacute", "upair"}
DigitsAround == [int |-> <<<<49>>, <<>>>>, frac |-> <<<<48, DOT>>, <<>>>>, exp |-> <<<<49, 101>>, <<>>>>, mid |-> <<<<45, 49>>, <<DOT, 53, 69, PLUS, 48>>>>]
DigitsLen(f, n) == Len(DigitsAround[f][1]) + n + Len(DigitsAround[f][2])

Start0 == [stk |-> <<>>, done |-> FALSE, pos |-> 0, an |-> 0, compact |-> 0, nodes |-> 0, members |-> 0, breaks |-> 0, levels |-> 0, facts |-> <<>>]

Depth(b) == Len(b.stk)
InObj(b) == Depth(b) > 0 /\ b.stk[Depth(b)].k = "o"
MayAdd(b, n) == IF Depth(b) = 0 THEN ~b.done /\ n = 1 ELSE TRUE
\* commas and keys in front of n more values
Before(b, n) == IF Depth(b) = 0 THEN 0
                ELSE (IF b.stk[Depth(b)].n = 0 THEN n - 1 ELSE n) + (IF InObj(b) THEN n * KeyLen ELSE 0)
Move(b, bytes) == [b EXCEPT !.pos = @ + bytes, !.an = b.pos + bytes, !.compact = @ + bytes]
\* n values with that many bytes and nodes in all
Add(b, n, bytes, nodes) ==
  IF n = 0 THEN b ELSE
  LET m == Move(b, Before(b, n) + bytes)
      keys == IF InObj(b) THEN n ELSE 0
  IN [m EXCEPT !.nodes = @ + nodes + keys, !.members = @ + keys,
               !.breaks = @ + (IF Depth(b) = 0 THEN 0 ELSE n), !.levels = @ + (n * Depth(b)),
               !.done = @ \/ Depth(b) = 0,
               !.stk = IF Depth(b) = 0 THEN @ ELSE [@ EXCEPT ![Depth(b)].n = @ + n]]

EachBytes(k, s, m) == 2 + (m * Len(Sorts[s])) + (IF m = 0 THEN 0 ELSE m - 1) + (IF k = "o" THEN m * KeyLen ELSE 0)
EachNodes(k, m) == 1 + m + (IF k = "o" THEN m ELSE 0)
Fact(k, at, end, n) == <<k, at, end, n>>

Do(b, mv) ==
  CASE mv[1] = "leaf" -> Add(b, mv[3], mv[3] * Len(Sorts[mv[2]]), mv[3])
    [] mv[1] = "digits" -> Add(b, 1, DigitsLen(mv[2], mv[3]), 1)
    [] mv[1] = "text" -> Add(b, 1, (IF InObj(b) THEN 2 ELSE 1) * (RunsLen(mv[2]) + 2) + (IF InObj(b) THEN 1 - KeyLen ELSE 0), 1)
    [] mv[1] = "blank" -> [b EXCEPT !.pos = @ + mv[2]]
    [] mv[1] = "open" ->
         LET a == Add(b, 1, 1, 1) IN
         [a EXCEPT !.done = FALSE, !.stk = Append(@, [k |-> mv[2], n |-> 0, at |-> a.nodes - 1])]
    [] mv[1] = "close" ->
         LET d == Depth(b)
             f == b.stk[d]
             c == Move(b, 1)
         IN [c EXCEPT !.stk = SubSeq(@, 1, d - 1), !.done = d = 1,
                      !.breaks = @ + (IF f.n = 0 THEN 0 ELSE 1), !.levels = @ + (IF f.n = 0 THEN 0 ELSE d - 1),
                      !.facts = Append(@, Fact(f.k, f.at, b.nodes, f.n))]
    [] mv[1] = "each" ->
         LET k == mv[2]
             n == mv[3]
             m == mv[5]
             each == EachNodes(k, m)
             stride == each + (IF InObj(b) THEN 1 ELSE 0)
             a == Add(b, n, n * EachBytes(k, mv[4], m), n * each)
             first == b.nodes + (IF InObj(b) THEN 1 ELSE 0)
             last == first + ((n - 1) * stride)
         IN IF n = 0 THEN b ELSE
            [a EXCEPT !.members = @ + (IF k = "o" THEN n * m ELSE 0),
                      !.breaks = @ + (n * m) + (IF m = 0 THEN 0 ELSE n),
                      !.levels = @ + (n * m * (Depth(b) + 1)) + (IF m = 0 THEN 0 ELSE n * Depth(b)),
                      !.facts = @ \o <<Fact(k, first, first + each, m), Fact(k, last, last + each, m)>>]

May(b, mv) ==
  CASE mv[1] = "leaf" -> MayAdd(b, mv[3])
    [] mv[1] \in {"digits", "text", "open"} -> MayAdd(b, 1)
    [] mv[1] = "each" -> MayAdd(b, mv[3])
    [] mv[1] = "close" -> Depth(b) > 0
    [] OTHER -> TRUE

RECURSIVE Closed(_)
Closed(b) == IF Depth(b) = 0 THEN b ELSE Closed(Do(b, <<"close">>))
PrettyLen(b, ind, nl) == b.compact + b.members + (b.breaks * nl) + (b.levels * ind)

\* the parser machine at this point of the text
Machine(b) == [InitMachine(DefaultCfg) EXCEPT
  !.pos = b.pos, !.an = b.an, !.stk = TLCEval([i \in 1..Depth(b) |-> [k |-> b.stk[i].k, n |-> b.stk[i].n]]),
  !.ctx = IF Depth(b) = 0 THEN (IF b.done THEN "end" ELSE "root")
          ELSE LET f == b.stk[Depth(b)] IN
               IF f.k = "o" THEN (IF f.n = 0 THEN "key0" ELSE "ocomma") ELSE (IF f.n = 0 THEN "arr0" ELSE "acomma")]

\* ------------------------------------------------------------- spelled out
RECURSIVE Times(_, _)
Times(x, n) == IF n = 0 THEN <<>> ELSE x \o Times(x, n - 1)
RunsBody(runs) == FoldLeft(LAMBDA a, r : a \o Times(Pieces[r[1]], r[2]), <<>>, runs)
RECURSIVE Spread(_, _, _, _)      \* n times x, each after what has to stand in front of it
Spread(e, key, x, n) == IF n = 0 THEN e
  ELSE Spread([t |-> e.t \o (IF e.some[Len(e.some)] THEN <<COMMA>> ELSE <<>>) \o key \o x,
               ks |-> e.ks, some |-> [e.some EXCEPT ![Len(e.some)] = TRUE]], key, x, n - 1)
Put1(e, x, n) == Spread(e, IF e.ks # <<>> /\ e.ks[Len(e.ks)] = "o" THEN K ELSE <<>>, x, n)
Each(k, s, m) == LET e == Spread([t |-> <<>>, ks |-> <<>>, some |-> <<FALSE>>], IF k = "o" THEN K ELSE <<>>, Sorts[s], m) IN
                 <<IF k = "o" THEN LBRACE ELSE LBRACK>> \o e.t \o <<IF k = "o" THEN RBRACE ELSE RBRACK>>
ExpandStep(e, mv) ==
  CASE mv[1] = "leaf" -> Put1(e, Sorts[mv[2]], mv[3])
    [] mv[1] = "digits" -> Put1(e, DigitsAround[mv[2]][1] \o Times(<<49>>, mv[3]) \o DigitsAround[mv[2]][2], 1)
    [] mv[1] = "each" -> Put1(e, Each(mv[2], mv[4], mv[5]), mv[3])
    [] mv[1] = "blank" -> [e EXCEPT !.t = @ \o Times(<<SP>>, mv[2])]
    [] mv[1] = "text" -> LET q == <<QUOTE>> \o RunsBody(mv[2]) \o <<QUOTE>> IN
                         IF e.ks # <<>> /\ e.ks[Len(e.ks)] = "o" THEN Spread(e, q \o <<COLON>>, q, 1) ELSE Spread(e, <<>>, q, 1)
    [] mv[1] = "open" -> LET o == Put1(e, <<IF mv[2] = "o" THEN LBRACE ELSE LBRACK>>, 1) IN
                         [o EXCEPT !.ks = Append(@, mv[2]), !.some = Append(@, FALSE)]
    [] OTHER -> [t |-> e.t \o <<IF e.ks[Len(e.ks)] = "o" THEN RBRACE ELSE RBRACK>>,
                 ks |-> SubSeq(e.ks, 1, Len(e.ks) - 1), some |-> SubSeq(e.some, 1, Len(e.some) - 1)]
Expand(walk) == FoldLeft(ExpandStep, [t |-> <<>>, ks |-> <<>>, some |-> <<FALSE>>], walk)
=============================================================================
