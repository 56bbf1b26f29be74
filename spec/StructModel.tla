----------------------------- MODULE StructModel -----------------------------
(***************************************************************************)
(* All short histories of a condition account in a small world (read from  *)
(* WORLD_FILE: n, graph, conds, and the operations to choose from), with a *)
(* scheduler that keeps a pile of graphs, one per condition, and brings it *)
(* up to date only when somebody looks: it drops the graphs above the part *)
(* of the order that did not change and applies the conditions after it.   *)
(* Every history is printed, to be replayed on the implementation.         *)
(***************************************************************************)
EXTENDS Struct, Json, IOUtils

World == JsonDeserialize(IOEnv.WORLD_FILE)
Depth == World.depth
N == World.n
Conds == World.conds
Base == [x \in 1..N |-> Rng(World.graph[x])]
Ops == Rng(World.ops)

VARIABLES s,      \* the account
          done,   \* conditions whose graphs are on the pile
          pile,   \* the graphs, pile[1] the original one
          log     \* operations so far

Init == s = Fresh(N, Conds) /\ done = <<>> /\ pile = <<Base>> /\ log = <<>>

Common(a, b) ==
  LET K == {k \in 0..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) : SubSeq(a, 1, k) = SubSeq(b, 1, k)}
  IN CHOOSE k \in K : \A j \in K : j <= k
\* the conditions of q applied on top of pile p, up to the first that cannot be
RECURSIVE Pile(_, _)
Pile(p, q) ==
  IF q = <<>> \/ CannotApply(Conds[q[1]], p[Len(p)]) THEN p
  ELSE Pile(Append(p, CHOOSE g \in Apply(Conds[q[1]], p[Len(p)]) : TRUE), Tail(q))
\* bring the pile up to date
Synced(d, p, order) ==
  LET k == Common(d, order)
      p2 == Pile(SubSeq(p, 1, k + 1), SubSeq(order, k + 1, Len(order)))
  IN [done |-> SubSeq(order, 1, Len(p2) - 1), pile |-> p2]

Effect(op) ==
  CASE op[1] \in {"add", "addset"} /\ BadOwner(Conds, op[2], op[3]) -> s
    [] op[1] = "assign" /\ BadOwner(Conds, op[2], op[3]) -> s
    [] op[1] \in {"add", "addset"} -> Add(s, Conds, op[2], op[3])
    [] op[1] = "assign" -> Assign(s, Conds, op[2], op[3])
    [] op[1] = "rmc" -> RemoveCond(s, Conds, op[3]).s
    [] op[1] = "rmo" -> RemoveOwner(s, op[2]).s
    [] OTHER -> s

Next ==
  /\ Len(log) < Depth
  /\ \E op \in Ops :
       /\ log' = Append(log, op)
       /\ s' = Effect(op)
       /\ LET y == Synced(done, pile, s'.order) IN
          IF op[1] \in {"add", "addset", "look", "run"}
          THEN done' = y.done /\ pile' = y.pile
          ELSE UNCHANGED <<done, pile>>
       /\ Len(log') = Depth => PrintT(<<"HIST", ToJson(log')>>)
Spec == Init /\ [][Next]_<<s, done, pile, log>>

------------------------------------------------------------------------------
\* whoever looks now finds the original graph with the conditions in order,
\* or nothing if one of them cannot be applied
Follows ==
  LET F == GraphsOf(Base, Conds, s)
      y == Synced(done, pile, s.order)
  IN /\ y.done = s.order => y.pile[Len(y.pile)] \in F.gs
     /\ y.done # s.order => F.bad
     /\ F.gs = {} => y.done # s.order
\* the pile in between shows no graph that was not there before the conditions on it
PileFits == /\ Len(pile) = Len(done) + 1
            /\ \A k \in DOMAIN done : pile[k + 1] \in Apply(Conds[done[k]], pile[k])

\* the account, from the history alone: a condition is in force if it was
\* added after whatever took it away
Touch(op, k, o) ==
  \/ op[1] = "rmc" /\ op[3] = k
  \/ op[1] \in {"add", "addset", "assign"} /\ Basic(Conds, op[3]) /\ Basic(Conds, k) /\ op[2] = o
     /\ ~BadOwner(Conds, op[2], op[3])
BasicFromLog(o) ==
  LET I == {i \in DOMAIN log : log[i][1] \in {"add", "addset", "assign"} /\ log[i][2] = o /\ Basic(Conds, log[i][3])}
  IN IF I = {} THEN 0
     ELSE LET i == CHOOSE a \in I : \A b \in I : b <= a  k == log[i][3]
          IN IF \E j \in DOMAIN log : j > i /\ log[j][1] = "rmc" /\ log[j][3] = k THEN 0 ELSE k
AccountOK ==
  /\ \A o \in 1..N : s.basic[o] \in {0, BasicFromLog(o)}
  /\ (\A i \in DOMAIN log : log[i][1] # "rmo") => \A o \in 1..N : s.basic[o] = BasicFromLog(o)
  /\ \A o \in 1..N : s.basic[o] # 0 => s.own[s.basic[o]] = o
  /\ \A i \in DOMAIN s.order : s.own[s.order[i]] # 0 /\ ~Basic(Conds, s.order[i])
  /\ \A k \in DOMAIN Conds :
        Cardinality(Where(s, k)) =< Cardinality({i \in DOMAIN log : log[i][1] \in {"add", "addset", "assign"} /\ log[i][3] = k})

\* removal takes away exactly one condition and refusals nothing
RemovalOK ==
  /\ \A k \in DOMAIN Conds :
       LET r == RemoveCond(s, Conds, k) IN
       IF r.ret <= 0 THEN r.s = s
       ELSE IF Basic(Conds, k) THEN r.s.order = s.order /\ \A o \in 1..N : r.s.basic[o] = (IF o = s.own[k] THEN 0 ELSE s.basic[o])
       ELSE r.s.basic = s.basic /\ Len(r.s.order) = Len(s.order) - 1
  /\ \A o \in 1..N :
       LET r == RemoveOwner(s, o)  m == Cardinality(OwnedBy(s, o)) + (IF s.basic[o] = 0 THEN 0 ELSE 1) IN
       /\ r.ret = -1 <=> m > 1
       /\ r.ret = 0 <=> m = 0
       /\ r.ret <= 0 => r.s = s

\* adding a condition and taking it away again leaves the graph as it was
Undo ==
  \A k \in DOMAIN Conds :
    (~Basic(Conds, k) /\ Where(s, k) = {} /\ ~BadOwner(Conds, Conds[k].o, k)) =>
      RemoveCond(Add(s, Conds, Conds[k].o, k), Conds, k).s.order = s.order
=============================================================================
