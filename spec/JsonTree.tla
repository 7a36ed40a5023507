------------------------------ MODULE JsonTree ------------------------------
(***************************************************************************)
(* From the delegate calls of a parse to the tree they build, and from     *)
(* trees to a document's node list.                                        *)
(*                                                                         *)
(*   tree ::= <<"null">> | <<"bool", b>> | <<"num", s, e>>                 *)
(*          | <<"str", s, e, esc, cps>>                                    *)
(*          | <<"arr", <<tree, ...>>>> | <<"obj", <<<<key, tree>>, ...>>>> *)
(*                                                                         *)
(* where a key is a "str" tree.  A node is a leaf tree, <<"obj", n>> or    *)
(* <<"arr", n>>.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* One delegate call applied to the builder state
\*   [done : completed values waiting for their parent, stk : open containers]
\* stk element: <<"obj", members, keys>> or <<"arr", elements>>
InitBuilder == [val |-> <<>>, key |-> <<>>, stk |-> <<>>, root |-> <<>>]

Delegate(b, e) ==
  LET d == Len(b.stk)
      value(v) == IF d = 0 THEN [b EXCEPT !.val = v, !.root = v] ELSE [b EXCEPT !.val = v]
  IN CASE e[1] \in {"null", "bool", "num", "str"} -> value(e)
       [] e[1] = "key" -> [b EXCEPT !.key = Append(@, <<"str", e[2], e[3], e[4], e[5]>>)]
       [] e[1] = "obj" -> [b EXCEPT !.stk = Append(@, <<"obj", <<>>>>)]
       [] e[1] = "arr" -> [b EXCEPT !.stk = Append(@, <<"arr", <<>>>>)]
       [] e[1] = "ov" -> [b EXCEPT !.stk[d][2] = Append(@, <<b.key[Len(b.key)], b.val>>),
                                   !.key = SubSeq(@, 1, Len(@) - 1)]
       [] e[1] = "av" -> [b EXCEPT !.stk[d][2] = Append(@, b.val)]
       [] e[1] \in {"oend", "aend"} ->
            LET c == b.stk[d] IN
            IF d = 1 THEN [b EXCEPT !.stk = <<>>, !.val = c, !.root = c]
            ELSE [b EXCEPT !.stk = SubSeq(@, 1, d - 1), !.val = c]

RECURSIVE BuildFrom(_, _, _)
BuildFrom(b, ev, i) == IF i > Len(ev) THEN b ELSE BuildFrom(Delegate(b, ev[i]), ev, i + 1)
Build(ev) == BuildFrom(InitBuilder, ev, 1)
TreeOf(ev) == Build(ev).root

RECURSIVE Flatten(_), FlattenAll(_, _), FlattenMembers(_, _)
Flatten(t) == IF t[1] = "arr" THEN <<<<"arr", Len(t[2])>>>> \o FlattenAll(t[2], 1)
              ELSE IF t[1] = "obj" THEN <<<<"obj", Len(t[2])>>>> \o FlattenMembers(t[2], 1)
              ELSE <<t>>
FlattenAll(ts, i) == IF i > Len(ts) THEN <<>> ELSE Flatten(ts[i]) \o FlattenAll(ts, i + 1)
FlattenMembers(ms, i) == IF i > Len(ms) THEN <<>>
   ELSE <<ms[i][1]>> \o Flatten(ms[i][2]) \o FlattenMembers(ms, i + 1)

\* the delegate calls that make a node list grow
Pushes(e) == e[1] \in {"null", "bool", "num", "str", "key", "obj", "arr"}
NodeCount(ev) == Len(SelectSeq(ev, Pushes))

\* number of nodes of the value starting at node i of a list
RECURSIVE EndOf(_, _), EndOfMany(_, _, _)
EndOf(nodes, i) == IF nodes[i][1] = "arr" THEN EndOfMany(nodes, i + 1, nodes[i][2])
                   ELSE IF nodes[i][1] = "obj" THEN EndOfMany(nodes, i + 1, 2 * nodes[i][2])
                   ELSE i + 1
EndOfMany(nodes, i, k) == IF k = 0 THEN i ELSE EndOfMany(nodes, EndOf(nodes, i), k - 1)

\* and back: the tree of the value starting at node i
RECURSIVE Hydrate(_, _), HydrateElems(_, _, _), HydrateMembers(_, _, _)
Hydrate(nodes, i) ==
  IF nodes[i][1] = "arr" THEN <<"arr", HydrateElems(nodes, i + 1, nodes[i][2])>>
  ELSE IF nodes[i][1] = "obj" THEN <<"obj", HydrateMembers(nodes, i + 1, nodes[i][2])>>
  ELSE nodes[i]
HydrateElems(nodes, i, k) == IF k = 0 THEN <<>>
  ELSE <<Hydrate(nodes, i)>> \o HydrateElems(nodes, EndOf(nodes, i), k - 1)
HydrateMembers(nodes, i, k) == IF k = 0 THEN <<>>
  ELSE <<<<nodes[i], Hydrate(nodes, i + 1)>>>> \o HydrateMembers(nodes, EndOf(nodes, i + 1), k - 1)

KindOf(t) == CASE t[1] = "null" -> "Null" [] t[1] = "bool" -> "Boolean" [] t[1] = "num" -> "Number"
              [] t[1] = "str" -> "String" [] t[1] = "arr" -> "Array" [] OTHER -> "Object"
=============================================================================
