----------------------------- MODULE JsonLarge -----------------------------
(***************************************************************************)
(* Values beyond the sizes that can be enumerated: wide, deep and long,    *)
(* around the sizes an implementation may treat differently.               *)
(***************************************************************************)
EXTENDS Integers, Sequences
LgLRun(b, n) == [j \in 1..n |-> b]
LgLDigits(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
LgLNum(n) == <<"num", LgLDigits(n)>>
LgLKey(n) == <<"j", <<107>> \o LgLDigits(n)>>
LgLStr(b) == <<"str", <<"j", b>>>>
LgLRaw(t) == <<"str", <<"r", t>>>>
LgWideArr(n) == <<"arr", [j \in 1..n |-> LgLNum(j % 100)]>>
LgWideObj(n) == <<"obj", [j \in 1..n |-> <<LgLKey(j % 100), LgLNum(j % 100)>>]>>
\* keys that come again
LgDupObj(n, m) == <<"obj", [j \in 1..n |-> <<LgLKey(j % m), LgLNum(j % 100)>>]>>
\* member j is spelled with an escape
LgEscObj(n) == <<"obj", [j \in 1..n |-> <<<<"j", <<92, 117, 48, 48, 54, 98>> \o LgLDigits(j % 100)>>, LgLNum(j % 100)>>]>>
RECURSIVE LgDeep(_)
LgDeep(n) == IF n = 0 THEN <<"null">> ELSE IF n % 2 = 0 THEN <<"arr", <<LgDeep(n - 1)>>>> ELSE <<"obj", <<<<LgLKey(n % 7), LgDeep(n - 1)>>>>>>
RECURSIVE LgComb(_)
LgComb(n) == IF n = 0 THEN <<"arr", <<>>>> ELSE <<"arr", <<LgLNum(n % 10), LgComb(n - 1), <<"obj", <<>>>>>>>>
LgSizes == {5, 8, 9, 16, 17, 33}
LgWide == {LgWideArr(n) : n \in LgSizes} \cup {LgWideObj(n) : n \in LgSizes} \cup {LgDupObj(17, 5), LgEscObj(17)}
        \cup {<<"arr", [j \in 1..20 |-> IF j % 2 = 0 THEN <<"arr", <<>>>> ELSE <<"obj", <<>>>>]>>}
LgNested == {LgDeep(n) : n \in {4, 8, 9, 16, 17, 30}} \cup {LgComb(n) : n \in {3, 7, 12}}
LgLong == {LgLStr(LgLRun(97, n)) : n \in {15, 16, 31, 32, 63, 64, 65, 128, 129}} \cup {LgLStr(LgLRun(97, n) \o <<92, 110>>) : n \in {7, 15, 31, 63, 127}}
        \cup {LgLRaw(LgLRun(97, n) \o <<10>>) : n \in {7, 15, 31, 63, 127}} \cup {LgLRaw(<<34>> \o LgLRun(233, n) \o <<92, 65536, 1>>) : n \in {0, 6, 16, 32, 64}}
        \cup {LgLRaw(LgLRun(1, n)) : n \in {8, 12, 40}} \cup {<<"num", <<49>> \o LgLRun(48, n)>> : n \in {19, 40, 100}}
        \cup {<<"obj", <<<<<<"r", LgLRun(10, n)>>, LgLStr(LgLRun(98, n))>>, <<<<"j", LgLRun(97, 2 * n)>>, LgLNum(1)>>>>>> : n \in {8, 33}}
LgLarge == LgWide \cup LgNested \cup LgLong
\* pairs that differ late: at the end, in the middle, by one more
LgLast(v, x) == [v EXCEPT ![2][Len(v[2])] = x]
LgLate == {LgWideArr(n) : n \in {8, 17}} \cup {LgLast(LgWideArr(n), <<"null">>) : n \in {8, 17}} \cup {LgWideArr(9), LgWideArr(18)}
        \cup {[LgWideArr(17) EXCEPT ![2][9] = LgLNum(0)]}
        \cup {LgWideObj(17), LgEscObj(17), LgWideObj(18), LgLast(LgWideObj(17), <<LgLKey(17), LgLNum(18)>>), LgLast(LgWideObj(17), <<LgLKey(18), LgLNum(17)>>)}
        \cup {[LgWideObj(17) EXCEPT ![2][1] = LgWideObj(17)[2][2], ![2][2] = LgWideObj(17)[2][1]]}
        \cup {LgDeep(17), LgDeep(16), [LgDeep(2) EXCEPT ![2][1] = LgDeep(17)]}
        \cup {LgLStr(LgLRun(97, 64)), LgLRaw(LgLRun(97, 63) \o <<10>>), LgLStr(LgLRun(97, 63) \o <<92, 110>>), LgLStr(LgLRun(97, 63) \o <<92, 117, 48, 48, 48, 65>>),
               LgLStr(LgLRun(97, 63) \o <<98>>), LgLStr(LgLRun(97, 63) \o <<92, 117, 48, 48, 54, 49>>), LgLStr(<<92, 117, 48, 48, 54, 49>> \o LgLRun(97, 63))}
        \cup {<<"num", LgLRun(49, 40)>>, <<"num", LgLRun(49, 39) \o <<50>>>>, <<"num", LgLRun(49, 41)>>}
=============================================================================
