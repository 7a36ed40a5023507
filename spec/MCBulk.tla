------------------------------ MODULE MCBulk ------------------------------
(***************************************************************************)
(* Walks with run lengths around the sizes an implementation may treat     *)
(* differently (a byte, a page, two bytes).                                *)
(***************************************************************************)
EXTENDS JsonBulk, Json, FiniteSets
CONSTANTS Family, Scale, MaxMoves, Share, Shares

Sizes == CASE Scale = "small" -> {0, 1, 2}
           [] Scale = "byte" -> {1, 127, 128, 129, 255, 256, 257}
           [] Scale = "page" -> {1, 1000, 1023, 1024, 1025, 4095, 4096, 4097}
           [] OTHER -> {1, 65535, 65536, 65537}
Big == {n \in Sizes : n > 2 \/ Scale = "small"}
Most == CASE Scale = "small" -> 12 [] Scale = "byte" -> 1200 [] Scale = "page" -> 9000 [] OTHER -> 140000

Opens == {<<"open", k>> : k \in {"o", "a"}}
Leaves == {<<"leaf", s, n>> : s \in (IF Scale = "small" THEN {"num", "esc"} ELSE {"num", "str"}), n \in Sizes}
Eaches == {<<"each", k, n, s, m>> : k \in {"o", "a"}, n \in Big, s \in {"nul", "esc"}, m \in {0, 1, 2}}
Wides == {<<"each", k, n, "num", m>> : k \in {"o", "a"}, n \in {2}, m \in Big}
Runs == {<<p, n>> : p \in {"ascii", "acute", "euro", "cat", "nl", "uacute", "upair"}, n \in Sizes}
Texts == {<<"text", <<r>>>> : r \in Runs} \cup {<<"text", <<r, <<p, 1>>>>>> : r \in Runs, p \in {"nl", "acute", "upair"}}
         \cup {<<"text", <<<<p, 1>>, r>>>> : r \in Runs, p \in {"ascii", "uacute"}}
Blanks == {<<"blank", n>> : n \in Sizes}
Digits == {<<"digits", f, n>> : f \in {"int", "frac", "exp", "mid"}, n \in Big \ {0}}
One == {<<"leaf", "num", 1>>, <<"leaf", "esc", 1>>}
Moves == CASE Family = "containers" -> Opens \cup {<<"close">>} \cup Leaves \cup Eaches \cup Wides
           [] Family = "strings" -> Opens \cup Texts \cup One
           [] Family = "blanks" -> Opens \cup Blanks \cup One \cup {<<"close">>}
           [] OTHER -> Opens \cup Digits \cup One

VARIABLES vB, vWalk
vars == <<vB, vWalk>>
Init == vB = Start0 /\ vWalk = <<>>
Step(mv) == /\ May(vB, mv)
            /\ vWalk' = Append(vWalk, mv)
            /\ vB' = Do(vB, mv)
Next == /\ Len(vWalk) < MaxMoves
        /\ \E mv \in Moves : Step(mv)
Spec == Init /\ [][Next]_vars
\* two runs of white space are one; a walk of the last scale is large somewhere
Bounded == /\ vB.nodes <= Most
           /\ \A i \in 1..(Len(vWalk) - 1) : ~(vWalk[i][1] = "blank" /\ vWalk[i + 1][1] = "blank")

\* ------------------------------------------------------------- properties
TypeOK == vB.an <= vB.pos /\ vB.compact <= vB.pos /\ \A i \in 1..Len(vB.facts) : vB.facts[i][2] < vB.facts[i][3] /\ vB.facts[i][3] <= vB.nodes
\* the arithmetic is right: on small walks, against the machines
PerErr(m) == <<m.err.k, m.err.alt, m.err.b, m.err.lo, m.err.hi>>
Agrees == (Scale = "small" /\ vWalk # <<>>) =>
  LET e == Expand(vWalk)
      c == Closed(vB)
      text == Expand(vWalk \o [i \in 1..Depth(vB) |-> <<"close">>]).t
      p == Parse(text, DefaultCfg)
      t == TreeOf(p.ev)
      v == ValueOf(t, text)
      f == Flatten(t)
      half == Feed(InitMachine(DefaultCfg), e.t)
      same(x, y) == PerErr(StepByte(x, 33)) = PerErr(StepByte(y, 33)) /\ PerErr(Finish(x)) = PerErr(Finish(y)) /\ Finish(x).st = Finish(y).st
  IN /\ Len(e.t) = vB.pos
     /\ same(half.m, Machine(vB))
     /\ c.done =>
        /\ p.m.st = "ok"
        /\ Len(f) = c.nodes
        /\ \A i \in 1..Len(c.facts) : LET g == c.facts[i] IN
             f[g[2] + 1] = <<IF g[1] = "o" THEN "obj" ELSE "arr", g[4]>> /\ EndOf(f, g[2] + 1) = g[3] + 1
        /\ Len(Bytes(Write(v, CompactMode), 1)) = c.compact
        /\ Len(Bytes(Write(v, PrettyMode(<<SP, SP>>, <<LF>>)), 1)) = PrettyLen(c, 2, 1)
        /\ Len(Bytes(Write(v, PrettyMode(<<TAB>>, <<13, LF>>)), 1)) = PrettyLen(c, 1, 2)
     /\ \A i \in 1..Len(vWalk) : vWalk[i][1] = "text" =>
          LET r == vWalk[i][2]
              b == RunsBody(r)
              x == ParseBody(b).ev[1]
          IN Len(b) = RunsLen(r) /\ Len(x[5]) = RunsChars(r) /\ x[4] = RunsEsc(r) /\ Len(Utf8Encode(x[5])) = RunsDec(r)

\* --------------------------------------------------------------- emission
TextsOf(w) == LET t == SelectSeq(w, LAMBDA m : m[1] = "text") IN
              TLCEval([i \in 1..Len(t) |-> <<RunsLen(t[i][2]), RunsDec(t[i][2]), RunsChars(t[i][2]), RunsEsc(t[i][2])>>])
\* the last string cut open: before its closing quote
Cut(b) == [Machine(b) EXCEPT !.st = "str", !.pos = b.pos - 1]
CutErr(b, w, prev) == LET r == w[Len(w)]
                          ts == b.pos - RunsLen(r[2]) - 2
                          m == [Cut(b) EXCEPT !.ts = ts, !.an = IF InObj(b) THEN ts
                                                                ELSE IF Depth(b) > 0 /\ b.stk[Depth(b)].n > 1 THEN ts ELSE prev.an,
                                              !.ctx = IF InObj(b) THEN "oval" ELSE IF Depth(b) > 0 THEN "arr1" ELSE "root"]
                      IN <<PerErr(StepByte(m, 31)), PerErr(StepByte(m, 255)), PerErr(Finish(m))>>
Mine == (vB'.pos + Len(vWalk')) % Shares = Share
EmitWalk ==
  IF ~Mine \/ (Depth(vB') = 0 /\ ~vB'.done) THEN TRUE
  ELSE LET c == Closed(vB')
           m == Machine(vB')
       IN PrintT(ToJson([k |-> "B", c |-> <<FALSE, 128, TRUE>>, w |-> vWalk', nodes |-> c.nodes, compact |-> c.compact, src |-> c.pos, pos |-> vB'.pos,
             p2 |-> PrettyLen(c, 2, 1), p0 |-> PrettyLen(c, 0, 0), p3 |-> PrettyLen(c, 3, 2), facts |-> c.facts, texts |-> TextsOf(vWalk'),
             eb |-> PerErr(StepByte(m, 33)), ee |-> IF vB'.done THEN <<>> ELSE PerErr(Finish(m)),
             cut |-> IF vWalk'[Len(vWalk')][1] = "text" THEN CutErr(vB', vWalk', vB) ELSE <<>>]))
=============================================================================
