--------------------------------- MODULE GSC ---------------------------------
(***************************************************************************)
(* Graph structure conditions: what a condition makes of a graph.          *)
(*                                                                         *)
(* A condition c is a record                                               *)
(*   cls      "Before", "After", "With", "Add", "Remove", "Ops"            *)
(*   o        owner, d  sequence of subjects                               *)
(*   os, or   operation for the senders / receivers of the owner           *)
(*   ss, sr   operation for the senders / receivers of every subject       *)
(*            (sequences parallel to d)                                    *)
(*   rec, self, prune, ign   the cleanup options                           *)
(* ("Ops" has operations but no positioning; only its parts are used.)     *)
(*                                                                         *)
(* Everything up to the cleanup is a function of graph and condition.  Of  *)
(* the cleanup the specification fixes what it may remove and add, and     *)
(* what must not be left over; Results gives every outcome of the          *)
(* procedure "prune cycles, longest first, in any order".                  *)
(***************************************************************************)
EXTENDS Graphs, TLC

Rng(q) == {q[k] : k \in DOMAIN q}

Operation(op, S, C) ==
  CASE op = "KEEP" -> S
    [] op = "REPLACE" -> C
    [] op = "DISCARD" -> {}
    [] op = "INTERSECTION" -> S \cap C
    [] op \in {"UNION", "MERGE"} -> S \cup C
    [] op = "DIFFERENCE" -> S \ C
    [] op = "INVERSE_DIFFERENCE" -> C \ S
    [] op = "SYMMETRIC_DIFFERENCE" -> (S \ C) \cup (C \ S)
OpNames == {"KEEP", "REPLACE", "DISCARD", "INTERSECTION", "UNION", "MERGE", "DIFFERENCE",
            "INVERSE_DIFFERENCE", "SYMMETRIC_DIFFERENCE"}

Subj(c) == Rng(c.d)
Repositions(c) == c.cls \in {"Before", "After", "With"}
Missing(c, g) == ~(({c.o} \cup Subj(c)) \subseteq Nodes(g))
OpFor(c, ops, x) == ops[CHOOSE k \in DOMAIN c.d : c.d[k] = x]

------------------------------------------------------------------------------
(* subjects that are already where the condition wants them *)
Placed(c, g) ==
  CASE c.cls = "Before" -> {x \in Subj(c) : c.o \in g[x]}
    [] c.cls = "After"  -> {x \in Subj(c) : x \in g[c.o]}
    [] c.cls = "With"   -> {x \in Subj(c) : g[x] = g[c.o]}
    [] OTHER -> {}
AllPlaced(c, g) == Repositions(c) /\ Placed(c, g) = Subj(c)

\* edges between owner and subjects are taken away first
Pre(c, g) ==
  IF ~Repositions(c) THEN g
  ELSE [x \in Nodes(g) |-> IF x = c.o THEN g[x] \ Subj(c)
                           ELSE IF x \in Subj(c) THEN g[x] \ {c.o} ELSE g[x]]

(* the operations, on the graph g (after Pre) *)
NewSenders(c, g) ==
  [x \in {c.o} \cup Subj(c) |->
     IF x = c.o THEN Operation(c.os, g[c.o], UNION {g[n] : n \in Subj(c)})
     ELSE Operation(OpFor(c, c.ss, x), g[x], g[c.o])]
NewReceivers(c, g) ==
  LET R == Receivers(g) IN
  [x \in {c.o} \cup Subj(c) |->
     IF x = c.o THEN Operation(c.or, R[c.o], UNION {R[n] : n \in Subj(c)})
     ELSE Operation(OpFor(c, c.sr, x), R[x], R[c.o])]
\* edges about which two operations disagree
Disputed(c, g) ==
  LET NS == NewSenders(c, g)  NR == NewReceivers(c, g)  D == {c.o} \cup Subj(c)
  IN {e \in D \X D : (e[1] \in NS[e[2]]) # (e[2] \in NR[e[1]])}
\* senders first, then receivers: the latter win
Operated(c, g) ==
  LET NS == NewSenders(c, g)  NR == NewReceivers(c, g)
      g1 == [x \in Nodes(g) |-> IF x \in DOMAIN NS THEN NS[x] ELSE g[x]]
  IN [x \in Nodes(g) |-> {s \in Nodes(g) : IF s \in DOMAIN NR THEN x \in NR[s] ELSE s \in g1[x]}]

Placing(c, g) ==
  CASE c.cls = "Before" -> [x \in Nodes(g) |-> IF x \in Subj(c) THEN g[x] \cup {c.o} ELSE g[x]]
    [] c.cls = "After"  -> [g EXCEPT ![c.o] = @ \cup Subj(c)]
    [] c.cls = "With"   -> LET s == c.d[1]  all == g[c.o] \cup g[s]
                           IN [g EXCEPT ![c.o] = all, ![s] = all]
    [] OTHER -> g
\* the graph before cleanup
Processed(c, g) == Placing(c, Operated(c, Pre(c, g)))
NoNewSelf(c, g, base) ==
  IF ~c.self THEN g ELSE [x \in Nodes(g) |-> IF x \in base[x] THEN g[x] ELSE g[x] \ {x}]

Required(c, s, r) ==
  CASE c.cls = "Before" -> s = c.o /\ r \in Subj(c)
    [] c.cls = "After"  -> s \in Subj(c) /\ r = c.o
    [] c.cls = "With"   -> r \in Subj(c) \/ r = c.o
    [] OTHER -> FALSE

OnCycle(g, s, r) == s \in g[r] /\ (s = r \/ s \in StrictDown(g, r))
Reach(g, s, r) == r \in StrictDown(g, s)

------------------------------------------------------------------------------
(* What a result may look like.  Every operator names what is wrong.       *)
Pairs(c, base) == {e \in base[c.o] \X (Receivers(base)[c.o] \ Subj(c)) : e[1] # e[2]}

CleanupClauses(c, base, res) ==
  LET g0 == Processed(c, base)
      g1 == NoNewSelf(c, g0, base)
      P  == Edges(g1) \ Edges(res)
      A  == Edges(res) \ Edges(g1)
      selfA == {e \in A : e[1] = e[2]}
      D  == {c.o} \cup Subj(c)
      near(e) == e[1] \in D \/ e[2] \in D
      pruneBad == {e \in P : ~(/\ c.prune
                               /\ OnCycle(g1, e[1], e[2])
                               /\ (c.o \in {e[1], e[2]} \/ e[2] \in base[e[1]] \/ e[1] \notin base[e[2]])
                               /\ ~Required(c, e[1], e[2]))}
      recBad == {e \in A : ~(/\ c.rec
                             /\ e \in Pairs(c, base)
                             /\ \/ c.o \notin res[e[2]] \/ e[1] \notin res[c.o]
                                \* an owner that was its own sender is itself one of the pairs
                                \/ <<c.o, e[2]>> \in A \/ <<e[1], c.o>> \in A
                             /\ ~OnCycle(res, e[1], e[2]))}
      g1cyc  == \E e \in Edges(g1) : OnCycle(g1, e[1], e[2])
      without == [x \in Nodes(res) |-> IF x = c.o THEN {} ELSE res[x] \ {c.o}]
      ownerLeft == \/ c.o \in res[c.o] /\ ~Required(c, c.o, c.o)
                   \/ \E x \in Receivers(res)[c.o] \ {c.o}, y \in res[c.o] \ {c.o} :
                        /\ x = y \/ Reach(without, x, y)
                        /\ ~(Required(c, c.o, x) /\ Required(c, y, c.o))
      reverseLeft == \E e \in Edges(res) :
                        /\ c.o \notin {e[1], e[2]} /\ (e[2] \in base[e[1]] \/ e[1] \notin base[e[2]])
                        /\ ~Required(c, e[1], e[2]) /\ OnCycle(res, e[1], e[2])
  IN (IF \E e \in selfA : c.self /\ e[1] \notin base[e[1]] THEN {"SELF"} ELSE {})
     \cup (IF \E e \in pruneBad : e[1] = e[2] THEN {"SELF"} ELSE {})
     \cup (IF \E e \in recBad \ selfA : e \in Edges(g0) /\ FALSE THEN {"SELF"} ELSE {})
     \cup (IF \E e \in pruneBad : e[1] # e[2] /\ Required(c, e[1], e[2]) THEN {"POSITION"} ELSE {})
     \cup (IF \E e \in pruneBad : e[1] # e[2] /\ ~Required(c, e[1], e[2]) /\ g1cyc /\ c.prune THEN {"PRUNE"} ELSE {})
     \cup (IF \E e \in pruneBad : e[1] # e[2] /\ ~Required(c, e[1], e[2]) /\ ~(g1cyc /\ c.prune)
           THEN (IF \A e \in pruneBad : near(e) THEN {"LOST"} ELSE {"FOREIGN"}) ELSE {})
     \cup (IF \E e \in recBad \ selfA : TRUE
           THEN (IF \A e \in recBad : near(e) \/ e \in Pairs(c, base) THEN {"EXTRA"} ELSE {"FOREIGN"}) ELSE {})
     \cup (IF c.rec /\ \E e \in Pairs(c, base) : ~Reach(res, e[1], e[2]) /\ ~Reach(res, e[2], e[1])
           THEN {"RECONNECT"} ELSE {})
     \cup (IF c.prune /\ (ownerLeft \/ reverseLeft) THEN {"UNPRUNED"} ELSE {})

DefaultOps(c) ==
  /\ c.or = (IF c.cls = "After" THEN "MERGE" ELSE "KEEP")
  /\ \A k \in DOMAIN c.d : c.sr[k] = "KEEP"
  /\ c.os = (IF c.cls \in {"Before", "With"} THEN "MERGE" ELSE "KEEP")
  /\ \A k \in DOMAIN c.d : c.ss[k] = (IF c.cls \in {"After", "With"} THEN "MERGE" ELSE "KEEP")
Defaults(c) == Repositions(c) /\ ~c.ign /\ c.rec /\ c.self /\ c.prune /\ DefaultOps(c)

\* placing a node with another one cannot work if a third one lies between
Between(c, base) ==
  c.cls = "With" /\ \E x \in Nodes(base) \ {c.o, c.d[1]} :
    \/ Reach(base, c.o, x) /\ Reach(base, x, c.d[1])
    \/ Reach(base, c.d[1], x) /\ Reach(base, x, c.o)

PositionClauses(c, base, res) ==
  (IF c.cls = "Before" /\ \E x \in Subj(c) : c.o \notin res[x] THEN {"POSITION"} ELSE {})
  \cup (IF c.cls = "After" /\ \E x \in Subj(c) : x \notin res[c.o] THEN {"POSITION"} ELSE {})
  \cup (IF c.cls = "With" /\ res[c.o] \ {c.o, c.d[1]} # res[c.d[1]] \ {c.o, c.d[1]} THEN {"POSITION"} ELSE {})
  \cup (IF Defaults(c) /\ ~IsCyclic(base) /\ ~Between(c, base) /\ IsCyclic(res) THEN {"ACYCLIC"} ELSE {})

\* what is expected of applying c to base: refused, or a result
Refused(c, base) ==
  \/ Missing(c, base)
  \/ /\ c.cls \in {"Before", "After", "With", "Ops"}
     /\ ~AllPlaced(c, base)
     /\ ~c.ign
     /\ Disputed(c, Pre(c, base)) # {}

\* clauses a result breaks, {} if it is as specified
ResultClauses(c, base, res) ==
  IF DOMAIN res # DOMAIN base \/ UNION {res[x] : x \in DOMAIN res} \ DOMAIN base # {} THEN {"NODES"}
  ELSE CASE c.cls = "Add" -> IF res = [base EXCEPT ![c.d[1]] = @ \cup {c.o}] THEN {} ELSE {"EDGE"}
    [] c.cls = "Remove" -> IF res = [base EXCEPT ![c.o] = @ \ {c.d[1]}] THEN {} ELSE {"EDGE"}
    [] OTHER ->
       IF AllPlaced(c, base) THEN (IF res = base THEN {} ELSE {"UNCHANGED"})
       ELSE IF ~c.rec /\ ~c.self /\ ~c.prune
            THEN (IF res = Processed(c, base) THEN {}
                  ELSE {"OPS"} \cup PositionClauses(c, base, res))
            ELSE CleanupClauses(c, base, res) \cup PositionClauses(c, base, res)

------------------------------------------------------------------------------
(* The procedure: every outcome it can have *)
FullAnc(c, cyc, base) ==
  LET inC == Subj(c) \cap Rng(cyc)  chk == IF inC # {} THEN inC ELSE Subj(c)
  IN \A n \in chk : c.o \in Anc(base)[n]
FullDesc(c, cyc, base) ==
  LET inC == Subj(c) \cap Rng(cyc)  chk == IF inC # {} THEN inC ELSE Subj(c)
  IN \A n \in chk : c.o \in Desc(base)[n]
CycEdges(cyc) == {<<cyc[k], cyc[IF k = Len(cyc) THEN 1 ELSE k + 1]>> : k \in DOMAIN cyc}
\* edges removed when the cycle is dealt with
Cut(c, cyc, base, other) ==
  LET E == CycEdges(cyc)
      own == IF c.o \notin Rng(cyc) THEN {}
             ELSE IF (FullAnc(c, cyc, base) \/ ~FullDesc(c, cyc, base)) # other
                  THEN {e \in E : e[1] = c.o} ELSE {e \in E : e[2] = c.o}
      rev == {e \in E : /\ e[2] # c.o /\ e[1] # c.o
                        /\ (e[2] \in base[e[1]] \/ (other /\ e[1] \notin base[e[2]]))}
  IN {e \in own \cup rev : ~Required(c, e[1], e[2])}
Without(g, E) == [x \in Nodes(g) |-> {s \in g[x] : <<s, x>> \notin E}]

\* other: no preferred edge of the remaining cycles may be removed, so the
\* opposite edges of the owner and other new edges go
(* Where the order is not determined all orders are followed side by side: *)
(* W is a set of <<what is still to do, graph>>.  A cycle may be found with *)
(* another first node once edges are gone, and is then left for the next    *)
(* round, which starts from g0.                                             *)
RECURSIVE PruneRound(_, _, _, _, _), PruneAll(_, _, _, _)
PruneRound(c, W, base, other, g0) ==
  IF \E w \in W : w[1] = {}          \* as many cycles are left in all of W
  THEN {w[2] : w \in W}
  ELSE PruneRound(c,
         UNION {LET todo == w[1]  g == w[2]  left == SimpleCycles(g)
                    longest == {y \in todo : \A z \in todo : Len(y) >= Len(z)}
                IN UNION {{<<todo \ {y}, h>> :
                             h \in (IF y \notin left \/ (g # g0 /\ Len(y) > 1) THEN {g} ELSE {})
                                  \cup (IF y \in left THEN {Without(g, Cut(c, y, base, other))} ELSE {})}
                          : y \in longest}
                : w \in W},
         base, other, g0)
PruneAll(c, g, base, other) ==
  LET cs == SimpleCycles(g) IN
  IF cs = {} THEN {g}
  ELSE UNION {IF h # g THEN PruneAll(c, h, base, other)
              ELSE IF other THEN {g} ELSE PruneAll(c, g, base, TRUE)
              : h \in PruneRound(c, {<<cs, g>>}, base, other, g)}

RECURSIVE Reconnect(_, _, _)
Reconnect(c, W, base) ==
  IF \E w \in W : w[1] = {} THEN {w[2] : w \in W}
  ELSE Reconnect(c,
         UNION {{<<w[1] \ {e},
                   IF (c.o \notin w[2][e[2]] \/ e[1] \notin w[2][c.o]) /\ e[1] \notin Desc(w[2])[e[2]]
                   THEN [w[2] EXCEPT ![e[2]] = @ \cup {e[1]}] ELSE w[2]>> : e \in w[1]} : w \in W},
         base)

Results(c, base) ==
  CASE c.cls = "Add" -> {[base EXCEPT ![c.d[1]] = @ \cup {c.o}]}
    [] c.cls = "Remove" -> {[base EXCEPT ![c.o] = @ \ {c.d[1]}]}
    [] AllPlaced(c, base) -> {base}
    [] OTHER ->
       LET g1 == NoNewSelf(c, Processed(c, base), base)
           g2 == IF c.prune THEN PruneAll(c, g1, base, FALSE) ELSE {g1}
       IN IF c.rec THEN Reconnect(c, {<<Pairs(c, base), g>> : g \in g2}, base) ELSE g2
=============================================================================
