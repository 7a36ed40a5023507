------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* Model checking of the parser machine, and generation of the behaviours  *)
(* that are replayed into the implementation.                              *)
(*                                                                         *)
(* TLC explores the machine fed with pieces (bytes or tokens) of a given   *)
(* alphabet.  With UseView the states are identified up to their control   *)
(* part, so that every control state is visited once and every transition  *)
(* out of it is taken with every piece.  Each transition is emitted as a   *)
(* vector: the input that drives the implementation through it (completed  *)
(* into a whole text where possible), the delegate calls and the verdict   *)
(* the specification requires.                                             *)
(***************************************************************************)
EXTENDS JsonText, JsonTree, Json, FiniteSets, Functions, SequencesExt

CONSTANTS Alphabet,   \* name of the alphabet
          Cfgs,       \* set of <<trailing commas, limit, all roots>>
          MaxDepth,   \* containers
          MaxPieces,  \* pieces per input, 0: unbounded
          UseView,
          Emitting,       \* emit vectors?
          Opening    \* "none" or "instring"

\* values for Cfgs
DefaultCfgs == { <<FALSE, 128, TRUE>> }
AllCfgs == { <<tc, lim, roots>> : tc \in BOOLEAN, lim \in {-1, 0, 1, 2, 128}, roots \in BOOLEAN }
LimitCfgs == { <<FALSE, lim, TRUE>> : lim \in {-1, 0, 1, 2, 3} }
OptionCfgs == { <<tc, 128, roots>> : tc \in BOOLEAN, roots \in BOOLEAN }

CfgOf(c) == [tc |-> c[1], lim |-> c[2], roots |-> c[3]]

Bytes256 == { <<b>> : b \in 0..255 }
\* one or two representatives of every class of bytes the grammar distinguishes
ByteClasses == { <<b>> : b \in
  { 0, 8, 9, 10, 11, 13, 31, 32, 33, 34, 43, 44, 45, 46, 47, 48, 49, 57, 58, 69, 70, 71, 91, 92, 93,
    97, 98, 99, 100, 101, 102, 108, 110, 114, 115, 116, 117, 120, 123, 125, 126, 127, 128, 143, 144,
    159, 160, 191, 192, 194, 223, 224, 225, 237, 239, 240, 241, 243, 244, 245, 255 } }
\* whole tokens
S(x) == <<QUOTE>> \o x \o <<QUOTE>>
Tokens == { <<LBRACE>>, <<RBRACE>>, <<LBRACK>>, <<RBRACK>>, <<COMMA>>, <<COLON>>,
            <<SP, 48>>, S(<<97>>), S(<<BSL, 117, 48, 48, 54, 49>>), S(<<>>),
            <<LF, 110, 117, 108, 108>>, <<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>,
            <<45, 49, 46, 53, 101, 43, 48>> }
FewTokens == { <<LBRACE>>, <<RBRACE>>, <<LBRACK>>, <<RBRACK>>, <<COMMA>>, <<COLON>>,
               <<49>>, S(<<97>>) }
\* what the inside of a string is made of
InString == { <<97>>, <<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 185>>, <<244, 143, 191, 191>>,
              <<BSL, 110>>, <<BSL, QUOTE>>, <<BSL, BSL>>, <<BSL, SLASH>>, <<BSL, 98>>, <<BSL, 102>>,
              <<BSL, 114>>, <<BSL, 116>>, <<SLASH>>, <<117>>, <<48, 48, 52, 49>>,
              <<BSL, 117, 48, 48, 52, 49>>, <<BSL, 117, 48, 48, 48, 48>>, <<BSL, 117, 48, 48, 69, 57>>,
              <<BSL, 117, 102, 70, 102, 70>>, <<BSL, 117, 100, 55, 70, 102>>, <<BSL, 117, 69, 48, 48, 48>>,
              <<BSL, 117, 68, 56, 51, 100, BSL, 117, 100, 69, 51, 57>>,
              <<BSL, 117, 100, 56, 48, 48, BSL, 117, 100, 99, 48, 48>>,
              <<BSL, 117, 100, 98, 102, 102, BSL, 117, 100, 102, 102, 102>>,
              <<127>> }
\* well-formed and ill-formed UTF-8, at the edges of every form
Utf8Pieces == { <<97>>, <<QUOTE>>, <<BSL, 110>>, <<BSL, 117, 100, 56, 48, 48>>, <<BSL, 117, 100, 99, 48, 48>>,
                <<194, 128>>, <<223, 191>>, <<224, 160, 128>>, <<237, 159, 191>>, <<238, 128, 128>>, <<239, 191, 191>>,
                <<240, 144, 128, 128>>, <<244, 143, 191, 191>>, <<241, 128, 191, 128>>,
                <<128>>, <<191>>, <<192, 128>>, <<193, 191>>, <<194>>, <<224, 159, 191>>, <<225, 128>>, <<237, 160, 128>>,
                <<237, 191, 191>>, <<240, 143, 191, 191>>, <<240, 144, 128>>, <<244, 144, 128, 128>>, <<245, 128, 128, 128>>,
                <<255>>, <<194, 97>>, <<225, 128, 97>>, <<241, 128, 128, 97>>, <<127>> }
\* runs, up to and over the sizes an implementation may work in blocks of
Run(b, n) == [i \in 1..n |-> b]
Lengths == {7, 8, 15, 16, 17, 31, 32, 33, 64, 65, 129}
LongString == { Run(97, n) : n \in Lengths } \cup
              { <<97>>, <<97, 97, 97>>, <<QUOTE>>, <<BSL, 110>>, <<BSL, BSL>>, <<BSL, 117, 48, 48, 101, 57>>, <<BSL, 117, 100, 56, 48, 48, BSL, 117, 100, 99, 48, 48>>,
                <<195, 169>>, <<240, 159, 152, 185>>, <<31>>, <<127>>, <<255>>, <<195>>, <<BSL, 120>> }
\* long numbers, white space and containers
RECURSIVE Times(_, _)
Times(x, n) == IF n = 0 THEN <<>> ELSE x \o Times(x, n - 1)
LongTokens == { Run(SP, n) : n \in {8, 16, 33} } \cup { <<49>> \o Run(48, n) : n \in {7, 15, 16, 19, 40} }
              \cup { <<LBRACK>> \o Times(<<49, COMMA>>, n) : n \in {7, 8, 15, 16, 17, 33, 64, 130} }
              \cup { <<LBRACE>> \o Times(<<QUOTE, 97, QUOTE, COLON, 49, COMMA>>, n) : n \in {8, 9, 17, 32, 65} }
              \cup { Times(<<LBRACK, RBRACK, COMMA>>, 20), Run(LBRACK, 40), <<LBRACK>>, <<RBRACK>>, <<RBRACE>>, <<COMMA>>, <<49>>,
                      <<DOT, 48, 48, 48, 48, 48, 48, 48, 48, 49>>, <<101, 48, 48, 48, 48, 48, 48, 48, 49>>,
                      S(<<97>>) \o <<COLON>>, S(Run(97, 40)), Run(9, 5) \o <<LF, 13, LF>>, <<12>> }
\* numbers
NumBytes == { <<45>>, <<48>>, <<49>>, <<57>>, <<46>>, <<101>>, <<69>>, <<43>>, <<32>>, <<44>> }

Pieces == CASE Alphabet = "bytes256" -> Bytes256
            [] Alphabet = "classes" -> ByteClasses
            [] Alphabet = "tokens" -> Tokens
            [] Alphabet = "fewtokens" -> FewTokens
            [] Alphabet = "string" -> InString
            [] Alphabet = "utf8" -> Utf8Pieces
            [] Alphabet = "longstr" -> LongString
            [] Alphabet = "longtok" -> LongTokens
            [] OTHER -> NumBytes

Start(c) == Feed(InitMachine(CfgOf(c)), IF Opening = "instring" THEN <<QUOTE>> ELSE <<>>)

VARIABLES vM, vInp, vEv, vN
vars == <<vM, vInp, vEv, vN>>

Init == \E c \in Cfgs : /\ vM = Start(c).m /\ vEv = Start(c).ev
                        /\ vInp = IF Opening = "instring" THEN <<QUOTE>> ELSE <<>>
                        /\ vN = 0

Step(p) == LET f == Feed(vM, p) IN
           /\ Live(vM)
           /\ vM' = f.m
           /\ vInp' = vInp \o p
           /\ vEv' = vEv \o f.ev
           /\ vN' = vN + 1
End == LET e == Finish(vM) IN
       /\ Live(vM)
       /\ vM' = e /\ vEv' = vEv \o e.out
       /\ UNCHANGED <<vInp, vN>>

Next == End \/ ((MaxPieces = 0 \/ vN < MaxPieces) /\ \E p \in Pieces : Step(p))
Spec == Init /\ [][Next]_vars

Bounded == Len(vM.stk) <= MaxDepth

\* ------------------------------------------------------------------ view

Hi4(v) == CASE v \in 216..219 -> "hi" [] v \in 220..223 -> "lo" [] OTHER -> ""
HexClass(k, v) == CASE k = 0 -> "" [] k = 1 -> (IF v = 13 THEN "d" ELSE "")
                    [] k = 2 -> Hi4(v) [] OTHER -> Hi4(v \div 16)
Scratch(x) == CASE vM.st = "hex" -> <<x[1], HexClass(x[1], x[2])>>
                [] vM.st = "lowbs" -> <<>>
                [] vM.st = "lowu" -> <<>>
                [] vM.st = "lowhex" -> <<x[2], HexClass(x[2], x[3])>>
                [] vM.st = "u8" -> <<x[1], x[2], x[3]>>
                [] OTHER -> x
Cap(k) == IF k > 2 THEN 2 ELSE k
Control == <<vM.st, Scratch(vM.x), vM.ctx, [i \in 1..Len(vM.stk) |-> <<vM.stk[i].k, Cap(vM.stk[i].n)>>],
             vM.cfg, vM.err.k>>
View == IF UseView THEN Control ELSE vars

\* ------------------------------------------------------------- invariants

Frames == [i \in 1..Len(vM.stk) |-> vM.stk[i].k]
TypeOK ==
  /\ vM.pos <= Len(vInp)
  /\ vM.cfg.lim # NoLimit => Len(vM.stk) <= vM.cfg.lim           \* the limit is a limit
  /\ vM.ctx = "end" => vM.stk = <<>>
  /\ vM.ctx \in {"key0", "key1", "colon", "oval", "ocomma"} => vM.stk # <<>> /\ vM.stk[Len(vM.stk)].k = "o"
  /\ vM.ctx \in {"arr0", "arr1", "acomma"} => vM.stk # <<>> /\ vM.stk[Len(vM.stk)].k = "a"
  /\ vM.ctx \in {"arr0", "key0"} => vM.stk[Len(vM.stk)].n = 0
  /\ vM.err.lo <= vM.err.hi /\ vM.err.hi <= vM.pos /\ vM.an <= vM.pos + (IF Live(vM) THEN 0 ELSE 1)

\* the calls so far are properly nested and mirror the open containers
RECURSIVE OpenAfter(_, _, _)
OpenAfter(s, e, i) == IF i > Len(e) THEN s
  ELSE OpenAfter(CASE e[i][1] = "obj" -> Append(s, "o") [] e[i][1] = "arr" -> Append(s, "a")
                   [] e[i][1] \in {"oend", "aend"} -> SubSeq(s, 1, Len(s) - 1) [] OTHER -> s, e, i + 1)
Nested == vM.st # "err" => OpenAfter(<<>>, vEv, 1) = Frames

\* an accepted text has exactly one tree, and the node list represents it
TreeFaithful == vM.st = "ok" =>
  LET t == TreeOf(vEv)
      f == Flatten(t)
  IN /\ Len(f) = NodeCount(vEv)
     /\ Hydrate(f, 1) = t
     /\ EndOf(f, 1) = Len(f) + 1

\* without escapes the decoded text is the literal itself; lengths always agree
Decodes == \A i \in 1..Len(vEv) : vEv[i][1] \in {"str", "key"} =>
  LET body == SubSeq(vInp, vEv[i][2] + 1, vEv[i][3])
  IN /\ Utf8Valid(body)
     /\ (~vEv[i][4] => Utf8Encode(vEv[i][5]) = body)
     /\ (vEv[i][4] <=> \E j \in 1..Len(body) : body[j] = BSL)
     /\ \A c \in Range(vEv[i][5]) : IsScalar(c)

\* -------------------------------------------------------------- emission

\* `more`: continuations that change nothing any more, because the text is
\* refused already.  They make the rest of it look as if the refused byte had
\* been left out, or had been the one that was due.
Vector(i, mm, e, more) ==
  [k |-> "T", more |-> more, c |-> <<mm.cfg.tc, mm.cfg.lim, mm.cfg.roots>>, in |-> i,
   ok |-> mm.st = "ok", ev |-> e,
   er |-> <<mm.err.k, mm.err.alt, mm.err.b, mm.err.lo, mm.err.hi>>]

EmitTransition ==
  IF ~Emitting THEN TRUE
  ELSE IF ~Live(vM') THEN
    LET due == IF vInp' = vInp \/ vM'.st # "err" THEN <<>> ELSE Completion(vM)
    IN PrintT(ToJson(Vector(vInp', vM', vEv', IF due = <<>> THEN <<>> ELSE <<due, Tail(due)>>)))
  ELSE LET suffix == Completion(vM')
           f == Feed(vM', suffix)
           d == IF Live(f.m) THEN Finish(f.m) ELSE f.m
       IN PrintT(ToJson(Vector(vInp' \o suffix, d, vEv' \o f.ev \o (IF Live(f.m) THEN d.out ELSE <<>>), <<>>)))
=============================================================================
