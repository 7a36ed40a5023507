----------------------------- MODULE DocCursor -----------------------------
(***************************************************************************)
(* A cursor over a document's node list.  Reading or skipping a value is a *)
(* machine of its own: it owes one value, and every node it consumes pays  *)
(* one and adds what the node's length promises.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

InitCursor == [pos |-> 1, owe |-> 0]

\* nodes that follow a node because it is a container
Promised(n) == IF n[1] = "arr" THEN n[2] ELSE IF n[1] = "obj" THEN 2 * n[2] ELSE 0

AtEnd(nodes, c) == c.pos > Len(nodes)
\* one node
Advance(nodes, c) == [c EXCEPT !.pos = IF AtEnd(nodes, c) THEN @ ELSE @ + 1]
\* one value: start, consume, until nothing is owed
Owe(nodes, c) == [c EXCEPT !.owe = IF AtEnd(nodes, c) THEN 0 ELSE 1]
Pay(nodes, c) == [pos |-> c.pos + 1, owe |-> c.owe - 1 + Promised(nodes[c.pos])]
RECURSIVE Settle(_, _)
Settle(nodes, c) == IF c.owe = 0 THEN c ELSE Settle(nodes, Pay(nodes, c))
PastValue(nodes, c) == Settle(nodes, Owe(nodes, c))
=============================================================================
