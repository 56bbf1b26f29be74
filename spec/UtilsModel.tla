------------------------------ MODULE UtilsModel ------------------------------
(***************************************************************************)
(* All dependency dictionaries over N nodes, and what relates the helpers. *)
(* The dictionaries are printed to be replayed.                            *)
(***************************************************************************)
EXTENDS Utils, Json, IOUtils

CONSTANT N
VARIABLE D
Dicts == UNION {{[keys |-> K, deps |-> f] : f \in [K -> SUBSET (1..N)]} : K \in SUBSET (1..N)}
Init == /\ D \in Dicts
        /\ PrintT(<<"DICT", ToJson([keys |-> D.keys, deps |-> {<<k, D.deps[k]>> : k \in D.keys}])>>)
Next == UNCHANGED D
Spec == Init /\ [][Next]_D

F == Full(D)
\* there and back again
RoundTrip == /\ Back(DiNodes(D), DiEdges(D), TRUE) = F
             /\ Back(DiNodes(D), DiEdges(D), FALSE) = Only(F, {x \in DOMAIN F : F[x] # {}})
Inverse == \A a, b \in DOMAIN F : /\ (a \in DictReceivers(D)[b]) = (b \in F[a])
                                  /\ (a \in Anc(F)[b]) = (b \in Desc(F)[a])
Reach == \A x \in D.keys : /\ D.deps[x] \ {x} \subseteq DictAncestors(D)[x]
                           /\ \A y \in DictAncestors(D)[x] : Anc(F)[y] \ {x} \subseteq DictAncestors(D)[x]
                           /\ x \notin DictAncestors(D)[x] /\ x \notin DictDescendants(D)[x]
CyclesFit ==
  /\ (DictCycles(D) = {}) = ~IsCyclic(F)
  /\ \A c \in DictCycles(D) : /\ \A k \in DOMAIN c : c[k] \in F[c[(k % Len(c)) + 1]]
                              /\ \A j, k \in DOMAIN c : j # k => c[j] # c[k]
  \* a node is on a cycle exactly if it reaches itself
  /\ \A x \in DOMAIN F : (x \in StrictUp(F, x)) = (\E c \in DictCycles(D) : \E k \in DOMAIN c : c[k] = x)
LayersFit == Unorderable(F) = (\E c \in DictCycles(D) : Len(c) > 1)
=============================================================================
