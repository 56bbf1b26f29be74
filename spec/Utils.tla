-------------------------------- MODULE Utils --------------------------------
(***************************************************************************)
(* The graph helpers.  A dependency dictionary over the nodes 1..n is      *)
(* [keys, deps]: the listed nodes, and for each of them its senders, which *)
(* need not be listed themselves.                                          *)
(***************************************************************************)
EXTENDS Graphs, TLC

Senders(D) == UNION {D.deps[k] : k \in D.keys}
All(D) == D.keys \cup Senders(D)
\* as a graph of Graphs
Full(D) == [x \in All(D) |-> IF x \in D.keys THEN D.deps[x] ELSE {}]
Only(f, S) == [x \in S |-> f[x]]

DictReceivers(D) == Receivers(Full(D))
DictAncestors(D) == Only(Anc(Full(D)), D.keys)
DictDescendants(D) == Only(Desc(Full(D)), D.keys)
DictCycles(D) == SimpleCycles(Full(D))
\* the directed graph
DiNodes(D) == All(D)
DiEdges(D) == Edges(Full(D))
\* and back: nodes without dependencies may be left out
Back(nodes, edges, addmissing) ==
  LET deps == [x \in nodes |-> {e[1] : e \in {f \in edges : f[2] = x}}]
  IN IF addmissing THEN deps ELSE Only(deps, {x \in nodes : deps[x] # {}})
Clone(D) == D.deps

\* changes of a dictionary
AddDep(D, x, s) == [D EXCEPT !.deps[x] = @ \cup {s}]
DropDep(D, x, s) == [D EXCEPT !.deps[x] = @ \ {s}]
AddKey(D, x) == IF x \in D.keys THEN D ELSE [keys |-> D.keys \cup {x}, deps |-> (x :> {}) @@ D.deps]
DropKey(D, x) == [keys |-> D.keys \ {x}, deps |-> Only(D.deps, D.keys \ {x})]
=============================================================================
