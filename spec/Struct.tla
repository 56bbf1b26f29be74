------------------------------- MODULE Struct -------------------------------
(***************************************************************************)
(* A scheduler's conditions and graph: the account a condition set keeps,  *)
(* and the graph that follows from it.                                     *)
(*                                                                         *)
(* State s                                                                 *)
(*   basic   basic condition of every node (0: none)                       *)
(*   order   the structure conditions present, in the order of addition    *)
(*   own     owner a condition was last assigned to (0: never)             *)
(*   auto    nodes that may carry a condition assigned by a run            *)
(* Conditions are numbered; cs[k] is [kind |-> "basic"] or a structure     *)
(* condition as in GSC with its owner, "Custom" (edges to add and delete)  *)
(* or "Raise" (a user function that raises an error).                      *)
(***************************************************************************)
EXTENDS GSC

Basic(cs, k) == cs[k].cls = "basic"
Fresh(n, cs) == [basic |-> [x \in 1..n |-> 0], order |-> <<>>,
                 own |-> [k \in DOMAIN cs |-> 0], auto |-> {}]

OwnedBy(s, o) == {i \in DOMAIN s.order : s.own[s.order[i]] = o}
DropAt(q, I) ==
  LET F[i \in 0..Len(q)] == IF i = 0 THEN <<>>
                            ELSE IF i \in I THEN F[i - 1] ELSE Append(F[i - 1], q[i])
  IN F[Len(q)]
First(I) == CHOOSE i \in I : \A j \in I : i <= j
Where(s, k) == {i \in DOMAIN s.order : s.order[i] = k}

------------------------------------------------------------------------------
(* The account *)

\* an owner that is a subject of the condition is refused
BadOwner(cs, o, k) == cs[k].cls \notin {"basic", "Custom", "Raise"} /\ o \in Rng(cs[k].d)

Add(s, cs, o, k) ==
  IF Basic(cs, k)
  THEN [s EXCEPT !.basic[o] = k, !.own[k] = o, !.auto = @ \ {o}]
  ELSE [s EXCEPT !.order = Append(@, k), !.own[k] = o]

\* assignment also drops the structure conditions the node had
Assign(s, cs, o, k) ==
  [Add(s, cs, o, k) EXCEPT
     !.order = LET I == OwnedBy(s, o)
               IN IF Basic(cs, k) THEN DropAt(s.order, I) ELSE Append(DropAt(s.order, I), k)]

\* several at once: one after the other, up to the first one refused
RECURSIVE AddAll(_, _, _)
AddAll(s, cs, ps) ==
  IF ps = <<>> THEN [s |-> s, refused |-> FALSE]
  ELSE IF BadOwner(cs, ps[1][1], ps[1][2]) THEN [s |-> s, refused |-> TRUE]
  ELSE AddAll(Add(s, cs, ps[1][1], ps[1][2]), cs, Tail(ps))

\* what removal does: [s, ret] with ret the condition removed, 0 for none, -1 for refusal
DropBasic(s, o)  == [s EXCEPT !.basic[o] = 0, !.own[s.basic[o]] = 0]
DropStruct(s, k) == [s EXCEPT !.order = DropAt(@, {First(Where(s, k))})]

RemoveCond(s, cs, k) ==
  IF s.own[k] = 0 THEN [s |-> s, ret |-> -1]
  ELSE IF Basic(cs, k)
  THEN IF s.basic[s.own[k]] = k THEN [s |-> DropBasic(s, s.own[k]), ret |-> k] ELSE [s |-> s, ret |-> 0]
  ELSE IF Where(s, k) # {} THEN [s |-> DropStruct(s, k), ret |-> k] ELSE [s |-> s, ret |-> 0]
RemoveOwner(s, o) ==
  LET b == s.basic[o]  I == OwnedBy(s, o)
  IN IF b # 0 /\ I # {} THEN [s |-> s, ret |-> -1]
     ELSE IF b # 0 THEN [s |-> DropBasic(s, o), ret |-> b]
     ELSE IF Cardinality(I) > 1 THEN [s |-> s, ret |-> -1]
     ELSE IF I # {} THEN LET k == s.order[First(I)] IN [s |-> DropStruct(s, k), ret |-> k]
     ELSE [s |-> s, ret |-> 0]

------------------------------------------------------------------------------
(* The graph: the original one transformed by the conditions in order *)

CannotApply(c, g) ==
  CASE c.cls = "Raise" -> TRUE
    [] c.cls = "Custom" -> FALSE
    [] OTHER -> Refused(c, g)
Apply(c, g) ==
  IF c.cls = "Custom"
  THEN {[x \in DOMAIN g |-> (g[x] \cup {e[1] : e \in {a \in Rng(c.add) : a[2] = x}})
                              \ {e[1] : e \in {a \in Rng(c.del) : a[2] = x}}]}
  ELSE Results(c, g)

\* all graphs it can be; bad: some condition may be inapplicable
RECURSIVE Fold(_, _, _)
Fold(B, cs, q) ==
  IF q = <<>> THEN [gs |-> B, bad |-> FALSE]
  ELSE LET c == cs[q[1]]
           ref == {g \in B : CannotApply(c, g)}
           r == Fold(UNION {Apply(c, g) : g \in B \ ref}, cs, Tail(q))
       IN [gs |-> r.gs, bad |-> ref # {} \/ r.bad]
GraphsOf(base, cs, s) == Fold({base}, cs, s.order)

------------------------------------------------------------------------------
(* One pass in which every node with a basic condition always executes and *)
(* the others once all their parents have                                  *)
RECURSIVE RunSet(_, _, _)
RunSet(g, S, have) ==
  LET more == {x \in DOMAIN g \ have : x \in S \/ g[x] \subseteq have}
  IN IF more = {} THEN have ELSE RunSet(g, S, have \cup more)
OnePass(g, s, exact) ==
  LET run == RunSet(g, {x \in DOMAIN g : s.basic[x] # 0}, {})
      lay == IF exact THEN <<DOMAIN g>> ELSE Layers(g)
      sets == SelectSeq([k \in DOMAIN lay |-> lay[k] \cap run], LAMBDA S : S # {})
  IN IF sets = <<>> THEN <<{}>> ELSE sets
=============================================================================
