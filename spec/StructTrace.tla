----------------------------- MODULE StructTrace -----------------------------
(***************************************************************************)
(* Monitor: recorded histories of a scheduler's conditions and graph are   *)
(* behaviours of Struct.                                                   *)
(***************************************************************************)
EXTENDS Struct, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, st

ParOf(g) == [x \in DOMAIN g |-> Rng(g[x])]
InitSt(tr) == [s |-> Fresh(tr.n, tr.conds), mode |-> "std", hard |-> "", soft |-> {}]

Init == t \in DOMAIN Traces /\ i = 1 /\ st = InitSt(Traces[t])

Base(tr) == ParOf(tr.graph)
G(tr, s) == GraphsOf(Base(tr), tr.conds, s)
Soft(r, C) == [r EXCEPT !.soft = @ \cup C]
Hard(r, c) == [r EXCEPT !.hard = c]

(* An addition led to state s2.  It is reported through the scheduler      *)
(* (lvl "sched") if the resulting graph cannot be made.                    *)
After(r, tr, ev, s2, structural) ==
  LET r2 == [r EXCEPT !.s = s2] IN
  IF ev.r = "exc" THEN Hard(r2, "EXC")
  ELSE IF ev.lvl = "set" THEN (IF ev.r = "ok" THEN r2 ELSE Hard(r2, "REFUSED"))
  ELSE LET F == G(tr, s2) IN
    IF ev.r = "ok"
    THEN IF structural /\ F.gs = {} THEN Hard(r2, "APPLIED")
         \* a condition not seen before turns the graph into one that cannot be ordered
         ELSE IF /\ structural /\ ~F.bad /\ ev.w = 0
                 /\ \A g \in F.gs : Unorderable(g)
                 /\ \A k \in Rng(s2.order) \ Rng(r.s.order) : r.s.own[k] = 0
                 /\ \A g \in G(tr, r.s).gs : ~Unorderable(g)
              THEN Soft(r2, {"CYCWARN"})
         ELSE r2
    ELSE IF F.bad THEN r2 ELSE Hard(r2, "REFUSED")

AddEv(r, tr, ev) ==
  LET cs == tr.conds  s == r.s IN
  IF BadOwner(cs, ev.o, ev.id)
  THEN (IF ev.r = "err" THEN r ELSE Hard(r, IF ev.r = "ok" THEN "OWNERS" ELSE "EXC"))
  ELSE LET s2 == IF ev.e = "assign" THEN Assign(s, cs, ev.o, ev.id) ELSE Add(s, cs, ev.o, ev.id)
           r2 == After(r, tr, ev, s2, ~Basic(cs, ev.id) \/ ev.e = "assign")
       IN IF Basic(cs, ev.id) /\ s.basic[ev.o] # 0 /\ ev.r = "ok" /\ ev.w = 0 THEN Soft(r2, {"WARN"}) ELSE r2

AddSetEv(r, tr, ev) ==
  LET a == AddAll(r.s, tr.conds, ev.ps) IN
  IF ev.lvl = "ctor" /\ ev.r # "ok"
  \* there is no scheduler then, and the recording ends
  THEN (IF ev.r = "exc" THEN Hard(r, "EXC")
        ELSE IF a.refused \/ G(tr, a.s).bad THEN r ELSE Hard(r, "REFUSED"))
  ELSE IF a.refused
  THEN [(IF ev.r = "err" THEN r ELSE Hard(r, IF ev.r = "ok" THEN "OWNERS" ELSE "EXC")) EXCEPT !.s = a.s]
  ELSE After(r, tr, ev, a.s, \E p \in Rng(ev.ps) : ~Basic(tr.conds, p[2]))

\* ev.ret: condition returned, 0 nothing, -1 ConditionError, 99 one that was assigned by a run
RemoveEv(r, tr, ev) ==
  LET a == IF ev.e = "rmc" THEN RemoveCond(r.s, tr.conds, ev.id) ELSE RemoveOwner(r.s, ev.o)
      r2 == [r EXCEPT !.s = a.s]
  IN IF ev.ret = a.ret THEN r2
     ELSE IF ev.e = "rmc" /\ ev.was /\ {ev.ret, a.ret} \subseteq {0, -1} THEN r2
     ELSE IF ev.e = "rmo" /\ ev.o \in r.s.auto /\ ev.ret = 99 THEN [r EXCEPT !.s.auto = @ \ {ev.o}]
     ELSE IF ev.e = "rmo" /\ ev.o \in r.s.auto /\ ev.ret = -1 /\ OwnedBy(r.s, ev.o) # {} THEN r
     ELSE Hard(r, IF ev.ret = -5 THEN "EXC" ELSE "RET")

\* conditions assigned by runs do not count
NoAuto(q) == SelectSeq(q, LAMBDA k : k # 99)
ObsEv(r, tr, ev) ==
  LET s == r.s  N == 1..tr.n
      mine(x) == SelectSeq(s.order, LAMBDA k : s.own[k] = x)
      all(x)  == (IF s.basic[x] = 0 THEN <<>> ELSE <<s.basic[x]>>) \o mine(x)
      auto(x) == x \in s.auto
  IN Soft(r,
       (IF \E x \in N : ~(ev.basic[x] = s.basic[x] \/ (auto(x) /\ ev.basic[x] = 99)) THEN {"BASIC"} ELSE {})
       \cup (IF \E x \in N : ev.struct[x] # mine(x) THEN {"STRUCT"} ELSE {})
       \cup (IF ev.order # s.order THEN {"ORDER"} ELSE {})
       \cup (IF \E x \in N : (IF auto(x) THEN NoAuto(ev.conds[x]) ELSE ev.conds[x]) # all(x) THEN {"CONDS"} ELSE {})
       \cup (IF \E x \in N : ~auto(x) /\ ev.has[x] # (all(x) # <<>>) THEN {"CONDS"} ELSE {})
       \cup (IF ev.shape THEN {} ELSE {"CONDS"})
       \cup (IF ev.extra THEN {"CONDS"} ELSE {})
       \cup (IF \E x \in N : s.basic[x] # 0 /\ ev.own[s.basic[x]] # x THEN {"OWNER"} ELSE {})
       \cup (IF \E k \in Rng(s.order) : ev.own[k] # s.own[k] THEN {"OWNER"} ELSE {}))

GraphEv(r, tr, ev) ==
  LET F == G(tr, r.s)  g == ParOf(ev.g)
      q == [k \in DOMAIN ev.q |-> Rng(ev.q[k])]
      lay == Layers(g)
      idx == [n \in DOMAIN g |-> IF \E k \in DOMAIN lay : n \in lay[k]
                                 THEN (CHOOSE k \in DOMAIN lay : n \in lay[k]) - 1 ELSE -1]
  IN IF ev.r = "err" THEN (IF F.bad THEN r ELSE Hard(r, "GERR"))
     ELSE IF ev.r = "exc" THEN Hard(r, "EXC")
     ELSE IF F.gs = {} THEN Hard(r, "APPLIED")
     ELSE Soft(r,
       (IF ~ev.keys THEN {"GRAPH"} ELSE IF g \notin F.gs THEN {"GRAPH"} ELSE {})
       \cup (IF ~ev.dd THEN {"GRAPH"} ELSE {})
       \cup (IF r.mode = "exact" THEN (IF q # <<DOMAIN g>> THEN {"QUEUE"} ELSE {})
             ELSE IF ~Unorderable(g) /\ q # lay THEN {"QUEUE"} ELSE {})
       \cup (IF ~Unorderable(g) /\ ev.qi # idx THEN {"QINDEX"} ELSE {}))

\* one pass
RunEv(r, tr, ev) ==
  LET F == G(tr, r.s)
      free == {x \in 1..tr.n : r.s.basic[x] = 0}
      sets == [k \in DOMAIN ev.sets |-> Rng(ev.sets[k])]
      r2 == [r EXCEPT !.s.auto = @ \cup free]
      quiet == IF ev.dh # 0 \/ ev.dc THEN Soft(r, {"EFFECT"}) ELSE r
  IN IF ev.r = "err" THEN (IF F.bad THEN quiet ELSE Hard(r, "GERR"))
     ELSE IF ev.r = "exc" THEN Hard(r, "EXC")
     ELSE IF F.gs = {} THEN Hard(r, "APPLIED")
     ELSE IF ev.r = "cyc"
     THEN (IF \E g \in F.gs : Unorderable(g) THEN quiet ELSE Hard(r, "RUNERR"))
     ELSE IF \A g \in F.gs : Unorderable(g) THEN Hard(r, "CYCLIC")
     ELSE Soft(r2,
       (IF \E g \in F.gs : ~Unorderable(g) /\ sets = OnePass(g, r.s, r.mode = "exact") THEN {} ELSE {"RUN"})
       \cup (IF ev.dh # Len(ev.sets) THEN {"EFFECT"} ELSE {}))

Step(r, tr, ev) ==
  CASE ev.e \in {"add", "assign"} -> AddEv(r, tr, ev)
    [] ev.e = "addset" -> AddSetEv(r, tr, ev)
    [] ev.e \in {"rmc", "rmo"} -> RemoveEv(r, tr, ev)
    [] ev.e = "obs" -> ObsEv(r, tr, ev)
    [] ev.e = "graph" -> GraphEv(r, tr, ev)
    [] ev.e = "run" -> RunEv(r, tr, ev)
    [] ev.e = "mode" -> [r EXCEPT !.mode = ev.m]
    [] ev.e = "fail" -> Hard(r, ev.c)
    [] ev.e = "check" -> IF ev.v THEN r ELSE Soft(r, {ev.c})

Report(r, tr, k) ==
  /\ \A c \in r.soft \ st.soft : PrintT(<<"VIOL", tr.id, k, c>>)
  /\ r.hard # "" => PrintT(<<"VIOL", tr.id, k, r.hard>>)
  /\ (r.hard # "" \/ k = Len(tr.ev)) => PrintT(<<"DONE", tr.id, k>>)

Next ==
  LET tr == Traces[t] IN
  /\ i <= Len(tr.ev)
  /\ st.hard = ""
  /\ LET r == Step(st, tr, tr.ev[i]) IN Report(r, tr, i) /\ st' = r
  /\ i' = i + 1
  /\ t' = t
Spec == Init /\ [][Next]_<<t, i, st>>
=============================================================================
