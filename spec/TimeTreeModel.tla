--------------------------- MODULE TimeTreeModel ---------------------------
(***************************************************************************)
(* All short histories of advances; the answers of TimeTree against a tree *)
(* of totals as the implementation keeps it.  Histories are printed to be  *)
(* replayed.                                                               *)
(***************************************************************************)
EXTENDS TimeTree, Json, IOUtils

Depth == 6
VARIABLES h, tree
\* tree: path (indices of the scales 3 down to some scale) -> totals per scale
TreeInit == ((<<>>) :> [k \in 0..3 |-> 0]) @@ (<<0>> :> [k \in 0..2 |-> 0]) @@ (<<0, 0>> :> [k \in 0..1 |-> 0])
            @@ (<<0, 0, 0>> :> [k \in 0..0 |-> 0])
Init == h = FreshTime /\ tree = TreeInit

Children(t, path) == {p \in DOMAIN t : Len(p) = Len(path) + 1 /\ SubSeq(p, 1, Len(path)) = path}
Last(t, path) == MaxOf({p[Len(p)] : p \in Children(t, path)})
\* the child of path with index v, with its first descendants
RECURSIVE Grow(_, _)
Grow(t, path) == LET t2 == t @@ (path :> [k \in 0..(3 - Len(path)) |-> 0])
                 IN IF Len(path) = 3 THEN t2 ELSE Grow(t2, Append(path, 0))
RECURSIVE TreeInc(_, _, _)
TreeInc(t, path, k) ==
  LET child == 3 - Len(path)
      t2 == IF k = child THEN IF child > 0 THEN Grow(t, Append(path, Last(t, path) + 1)) ELSE t
            ELSE TreeInc(t, Append(path, Last(t, path)), k)
  IN [t2 EXCEPT ![path][k] = @ + 1]

Next == /\ Len(h.log) < Depth
        /\ \E k \in 0..3 : h' = Inc(h, k) /\ tree' = TreeInc(tree, <<>>, k)
        /\ Len(h'.log) = Depth => PrintT(<<"HIST", ToJson([i \in DOMAIN h'.log |-> h'.log[i].k])>>)
Spec == Init /\ [][Next]_<<h, tree>>

Idx(path, b) == [k \in b..3 |-> path[4 - k]]
\* every unit there is in the tree exists, with the right totals, and no other does
Answers ==
  /\ \A p \in DOMAIN tree :
       LET b == 4 - Len(p) IN
       b >= 1 => \A q \in 0..(b - 1) : Query(h, LIFE, 0, q, IF p = <<>> THEN <<>> ELSE Idx(p, b)) = tree[p][q]
  /\ \A a \in 0..3, c \in 0..3 : <<a, c>> \notin DOMAIN tree => Query(h, LIFE, 0, 0, (3 :> a) @@ (2 :> c)) = -1
\* without an index the latest unit is meant
Latest ==
  \A q \in 0..3 : \A b \in (q + 1)..3 :
     LET B == (b :> h.now[b]) IN
     Query(h, LIFE, 0, q, B) = Query(h, LIFE, 0, q, [k \in b..3 |-> h.now[k]])
\* the units of a scale within a coarser one add up
AddUp ==
  \A q \in 0..2 : Query(h, LIFE, 0, q, <<>>) =
     LET F[v \in 0..(h.now[3] + 1)] == IF v = 0 THEN 0 ELSE F[v - 1] + Query(h, LIFE, 0, q, 3 :> (v - 1))
     IN F[h.now[3] + 1]
=============================================================================
