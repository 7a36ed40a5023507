----------------------------- MODULE ParseConfig -----------------------------
(***************************************************************************)
(* The configuration as a value with a history: constructors, builder      *)
(* steps and direct assignments of its public fields.                      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

\* limits are numbers of levels; Unlimited is no limit
Unlimited == -1

New     == [tc |-> FALSE, lim |-> 128, roots |-> TRUE]
Strict  == [tc |-> FALSE, lim |-> 128, roots |-> FALSE]

Made(o) == CASE o = "new" -> New [] o = "default" -> New [] OTHER -> Strict
Makers == {"new", "default", "strict"}

\* one step: <<name, argument>>
Applied(c, o) ==
  CASE o[1] = "unlimited" -> [c EXCEPT !.lim = Unlimited]
    [] o[1] = "limit"     -> [c EXCEPT !.lim = o[2]]
    [] o[1] = "roots"     -> [c EXCEPT !.roots = o[2] = 1]
    [] o[1] = "commas"    -> [c EXCEPT !.tc = TRUE]
    [] o[1] = "copy"      -> c
    [] o[1] = "setlimit"  -> [c EXCEPT !.lim = o[2]]
    [] o[1] = "setroots"  -> [c EXCEPT !.roots = o[2] = 1]
    [] o[1] = "setcommas" -> [c EXCEPT !.tc = o[2] = 1]

Limits == {0, 1, 2, 3, 127, 128, 129, 1000000}
Steps == { <<"unlimited", 0>>, <<"commas", 0>>, <<"copy", 0>>, <<"setlimit", Unlimited>>, <<"setlimit", 1>>, <<"setlimit", 4>> }
         \cup { <<"limit", n>> : n \in Limits }
         \cup { <<o, n>> : o \in {"roots", "setroots", "setcommas"}, n \in {0, 1} }

\* which field a step names
Names(o) == CASE o[1] \in {"unlimited", "limit", "setlimit"} -> "lim"
              [] o[1] \in {"roots", "setroots"} -> "roots"
              [] o[1] \in {"commas", "setcommas"} -> "tc"
              [] OTHER -> ""
=============================================================================
