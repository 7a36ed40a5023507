------------------------------ MODULE JsonGen ------------------------------
(* All values with exactly n nodes (values plus keys) over given leaves    *)
(* and keys.                                                               *)
EXTENDS Integers, Sequences
CONSTANTS Leaves, Keys
RECURSIVE TreesOfSize(_), SeqsOfSize(_), MembersOfSize(_)
TreesOfSize(n) == IF n = 1 THEN Leaves \cup {<<"arr", <<>>>>, <<"obj", <<>>>>}
  ELSE {<<"arr", s>> : s \in SeqsOfSize(n - 1)} \cup {<<"obj", s>> : s \in MembersOfSize(n - 1)}
SeqsOfSize(n) == IF n = 0 THEN {<<>>}
  ELSE UNION {{<<t>> \o s : t \in TreesOfSize(k), s \in SeqsOfSize(n - k)} : k \in 1..n}
MembersOfSize(n) == IF n = 0 THEN {<<>>}
  ELSE UNION {{<<<<key, t>>>> \o s : key \in Keys, t \in TreesOfSize(k), s \in MembersOfSize(n - k - 1)} : k \in 1..(n - 1)}
TreesUpTo(n) == UNION {TreesOfSize(k) : k \in 1..n}
=============================================================================
