------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Dependency graphs.  A graph over the nodes 1..n is the function p that  *)
(* maps every node to the set of its senders (its dependencies).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Nodes(p)     == DOMAIN p
Edges(p)     == {e \in Nodes(p) \X Nodes(p) : e[1] \in p[e[2]]}
Receivers(p) == [x \in Nodes(p) |-> {y \in Nodes(p) : x \in p[y]}]

RECURSIVE UpClosure(_, _)
UpClosure(p, s) ==
  LET s2 == s \cup UNION {p[x] : x \in s} IN IF s2 = s THEN s ELSE UpClosure(p, s2)

\* all nodes with a path (of at least one edge) to x
StrictUp(p, x)   == UpClosure(p, p[x])
\* all nodes reachable from x by a path of at least one edge
StrictDown(p, x) == UpClosure(Receivers(p), Receivers(p)[x])
\* as the helpers of the implementation return them: a node is never listed
\* as its own ancestor or descendant
Anc(p)  == [x \in Nodes(p) |-> StrictUp(p, x) \ {x}]
Desc(p) == [x \in Nodes(p) |-> StrictDown(p, x) \ {x}]

IsCyclic(p) == \E x \in Nodes(p) : x \in StrictUp(p, x)

(* Kahn layering: layer k holds the nodes all of whose senders are in     *)
(* earlier layers, at least one in layer k-1.  Self edges are ignored by  *)
(* the layering of the implementation.                                     *)
NoSelf(p) == [x \in Nodes(p) |-> p[x] \ {x}]
RECURSIVE LayersFrom(_, _)
LayersFrom(p, done) ==
  LET next == {x \in Nodes(p) \ done : p[x] \subseteq done}
  IN IF next = {} THEN <<>> ELSE <<next>> \o LayersFrom(p, done \cup next)
Layers(p)  == LayersFrom(NoSelf(p), {})
\* a graph that cannot be layered (a cycle of two or more nodes)
Unorderable(p) == UNION {Layers(p)[k] : k \in 1..Len(Layers(p))} # Nodes(p)

\* simple cycles in canonical form: sequences starting at their smallest node
RECURSIVE CyclesFrom(_, _, _)
CyclesFrom(p, start, path) ==
  LET last == path[Len(path)]
      R    == {y \in Nodes(p) : last \in p[y]}
      here == IF start \in R THEN {path} ELSE {}
      onp  == {path[k] : k \in 1..Len(path)}
  IN here \cup UNION {CyclesFrom(p, start, Append(path, y)) :
                        y \in {z \in R : z > start /\ z \notin onp}}
SimpleCycles(p) == UNION {CyclesFrom(p, x, <<x>>) : x \in Nodes(p)}
=============================================================================
