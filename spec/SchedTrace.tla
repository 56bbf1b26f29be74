------------------------------ MODULE SchedTrace ------------------------------
(***************************************************************************)
(* Trace monitor: every recorded execution of the implementation is        *)
(* checked to be a behaviour of SchedCore.  One initial state per trace,   *)
(* one transition per recorded event.  What is not observable (the order   *)
(* in which the members of one consideration set were looked at) is kept   *)
(* as the set of all states the specification could be in.                 *)
(*                                                                         *)
(* A violation names a clause.  After a clause about observations only     *)
(* (clock, probes, histories) checking goes on; after one about behaviour  *)
(* (which set, whether the run ends) the rest of the trace is not judged.  *)
(***************************************************************************)
EXTENDS SchedCore, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, i, st

Ids(tr)   == SetOf(tr.ids)
Pairs(tr) == {<<q[1], q[2]>> : q \in SetOf(tr.pairs)}
ParOf(g)  == [x \in DOMAIN g |-> SetOf(g[x])]
Env(ev, x) == [fl |-> ev.env.fl, pv |-> ev.env.pv, fin |-> ev.env.fin[x], boom |-> SetOf(ev.env.boom)]

World(par, cond, mode, dflt) ==
  [par |-> par, lay |-> Layers(par), bad |-> Unorderable(par),
   cond |-> cond, mode |-> mode, dflt |-> dflt]

InitSt(tr) ==
  [w |-> World(ParOf(tr.graph), tr.conds, tr.mode, tr.dflt),
   B |-> [x \in 1..tr.nctx |-> {InitCtx(tr.n, Pairs(tr), Ids(tr))}],
   H |-> [x \in 1..tr.nctx |-> <<>>],
   TS |-> [x \in 1..tr.nctx |-> <<>>],
   known |-> [x \in 1..tr.nctx |-> x = 1],
   te |-> tr.te, ts |-> tr.ts, dte |-> tr.te, dts |-> tr.ts,
   hard |-> "", soft |-> {}]

Init == /\ t \in DOMAIN Traces
        /\ i = 1
        /\ st = InitSt(Traces[t])

------------------------------------------------------------------------------
ClockOf(s)  == s.clk
PrvOf(s)    == s.prv
\* observations of the clock of a context
ClkSoft(B, ev) ==
  LET s == CHOOSE q \in B : TRUE IN
  (IF ev.clk # s.clk THEN {"CLOCK"} ELSE {})
  \cup (IF ev.phas # s.prv.has \/ (s.prv.has /\ ev.prv # s.prv.clk) THEN {"PREV"} ELSE {})
  \cup (IF ev.smp # <<s.clk[1], s.clk[3], s.clk[4]>> THEN {"SIMPLE"} ELSE {})
  \cup (IF ev.sabs # ev.abs THEN {"SIMPLE"} ELSE {})
  \cup (IF ev.abs # s.abs THEN {"ABS"} ELSE {})
  \cup (IF s.prv.has /\ ev.phas /\ ev.pabs # s.prv.abs THEN {"PREV"} ELSE {})
ClkOk(s, ev) == s.clk = ev.clk /\ s.abs = ev.abs

Hard(r, c) == [r EXCEPT !.hard = c]

\* which clause a set that is not allowed breaks
SetClause(w, outs, set) ==
  LET ys   == {o \in outs : o.k = "yield"}
      lays == {k \in DOMAIN Queue(w) : set \subseteq Queue(w)[k]}
      lis  == {o.s.ctl.li : o \in ys}
  IN IF \A o \in outs : o.k = "raise" THEN "SWALLOWED"
     ELSE IF ys = {} THEN "NOTENDED"
     ELSE IF set # {} /\ lays = {} THEN "LAYER"
     ELSE IF set # {} /\ lays \cap lis = {}
          THEN (IF \A a \in lays : \A b \in lis : a > b THEN "SKIPPED" ELSE "ORDER")
     ELSE IF set = {} THEN "EMPTY"
     ELSE "SET"

StepEv(r, tr, ev) ==
  LET x   == ev.x
      w   == r.w
      e   == Env(ev, x)
      te  == IF ev.te = <<>> THEN r.te ELSE ev.te[1]
      ts  == IF ev.ts = <<>> THEN r.ts ELSE ev.ts[1]
      fork == ev.new /\ ev.base > 0 /\ ~r.known[x]
      B0  == IF fork THEN {[s EXCEPT !.cnt = b.cnt, !.use = b.use, !.last = b.last]
                           : s \in r.B[x], b \in r.B[ev.base]}
             ELSE r.B[x]
      H0  == IF fork THEN r.H[ev.base] ELSE r.H[x]
      T0  == IF fork THEN r.TS[ev.base] ELSE r.TS[x]
      B1  == IF ev.new THEN UNION {RunStarts(s, w, te, ts, ev.skip) : s \in B0} ELSE B0
  IN
  IF ev.new /\ w.bad
  THEN IF ev.r = "runerr" THEN r ELSE Hard(r, "CYCLIC")
  ELSE IF ev.r = "runerr" THEN Hard(r, "RUNERR")
  ELSE
  LET outs == UNION {NextOf(s, w, e) : s \in B1} IN
  IF ev.r \in {"end", "raise"}
  THEN LET ok == {o \in outs : o.k = ev.r} IN
       IF ok = {} THEN Hard(r, IF ev.r = "raise" THEN "RAISED"
                               ELSE IF \A o \in outs : o.k = "raise" THEN "SWALLOWED" ELSE "EARLY")
       ELSE LET okc == {o \in ok : ClkOk(o.s, ev)}
                sel == IF okc = {} THEN ok ELSE okc
                B2  == {o.s : o \in sel}
            IN [r EXCEPT !.B[x] = B2, !.H[x] = H0, !.TS[x] = T0, !.known[x] = TRUE,
                         !.soft = @ \cup ClkSoft(B2, ev)
                           \cup (IF ev.len # Len(H0) THEN {"HIST"} ELSE {}),
                         !.hard = IF okc = {} THEN "CLOCK" ELSE ""]
  ELSE LET set == SetOf(ev.set)
           ok  == {o \in outs : o.k = "yield" /\ o.set = set}
       IN IF ok = {} THEN Hard(r, SetClause(w, outs, set))
          ELSE LET okc == {o \in ok : ClkOk(o.s, ev)}
                   sel == IF okc = {} THEN ok ELSE okc
                   B2  == {o.s : o \in sel}
                   s0  == CHOOSE q \in B2 : TRUE
               IN [r EXCEPT !.B[x] = B2,
                            !.H[x] = Append(H0, set),
                            !.TS[x] = IF s0.absOn THEN Append(T0, <<s0.abs>> \o s0.clk) ELSE T0,
                            !.known[x] = TRUE,
                            !.soft = @ \cup ClkSoft(B2, ev)
                              \cup (IF ev.len # Len(H0) + 1 THEN {"HIST"} ELSE {})
                              \cup (IF Len(ev.set) # Cardinality(set) THEN {"SET"} ELSE {}),
                            !.hard = IF okc = {}
                                     THEN (IF s0.clk # ev.clk THEN "CLOCK" ELSE "ABS") ELSE ""]

ProbeEv(r, tr, ev) ==
  LET x == ev.x
      e == Env(ev, x)
      fits == {s \in r.B[x] : IF e.boom = {} THEN ~ev.rz /\ Sat(ev.c, ev.o, s, r.w, e) = ev.v
                              ELSE (IF ev.rz THEN "E" ELSE IF ev.v THEN "T" ELSE "F") \in Res(ev.c, ev.o, s, r.w, e)}
      B2 == IF ev.rz THEN fits ELSE {Used(ev.c, ev.o, s, r.w, e) : s \in fits}
  IN IF fits = {} THEN Hard(r, "PROBE:" \o ev.c.op)
     ELSE [r EXCEPT !.B[x] = B2]

\* the graph becomes that of w2; runs may be suspended
NewGraph(r, w2) ==
  [r EXCEPT !.w = w2,
            !.B = IF w2.par = r.w.par THEN @
                  ELSE [x \in DOMAIN @ |-> UNION {Overtaken(s, r.w) : s \in @[x]}]]
Changed(g, ev) ==
  CASE ev.ch = "add" -> [g EXCEPT ![ev.b] = @ \cup {ev.a}]
    [] ev.ch = "del" -> [g EXCEPT ![ev.b] = @ \ {ev.a}]
    [] OTHER -> g

\* an edge is added or removed, and nobody looks
ChangeEv(r, ev) == NewGraph(r, World(Changed(r.w.par, ev), r.w.cond, r.w.mode, r.w.dflt))

GraphEv(r, tr, ev) ==
  LET par == ParOf(ev.graph)
      w2  == World(par, r.w.cond, r.w.mode, r.w.dflt)
      q   == [k \in DOMAIN ev.q |-> SetOf(ev.q[k])]
      expq == IF w2.bad THEN <<{}>> ELSE w2.lay
      r2  == NewGraph(r, w2)
      idx == [n \in DOMAIN par |->
                IF \E k \in DOMAIN expq : n \in expq[k]
                THEN (CHOOSE k \in DOMAIN expq : n \in expq[k]) - 1 ELSE -1]
      d1  == IF ev.ch = "any" THEN par ELSE Changed(r.w.par, ev)
  IN [r2 EXCEPT !.soft = @ \cup (IF q # Queue([w2 EXCEPT !.lay = expq]) THEN {"QUEUE"} ELSE {})
                            \cup (IF ev.qi # idx THEN {"QINDEX"} ELSE {})
                            \cup (IF par # d1 THEN {"GRAPH"} ELSE {})]

ObsEv(r, tr, ev) ==
  LET h == [k \in DOMAIN ev.hist |-> SetOf(ev.hist[k])] IN
  [r EXCEPT !.soft = @ \cup (IF h # r.H[ev.x] THEN {"HIST"} ELSE {})
                       \cup (IF ev.stamps # r.TS[ev.x] THEN {"STAMPS"} ELSE {})]

Apply(r, tr, ev) ==
  CASE ev.e = "step"  -> StepEv(r, tr, ev)
    [] ev.e = "drop"  -> [r EXCEPT !.B[ev.x] = {Abandon(s) : s \in @}]
    [] ev.e = "seqend" -> [r EXCEPT !.B[ev.x] = {EndSequence(s) : s \in @}]
    [] ev.e = "clk"   -> [r EXCEPT !.soft = @ \cup ClkSoft(r.B[ev.x], ev)]
    [] ev.e = "probe" -> ProbeEv(r, tr, ev)
    [] ev.e = "obs"   -> ObsEv(r, tr, ev)
    [] ev.e = "graph" -> GraphEv(r, tr, ev)
    [] ev.e = "chg"   -> ChangeEv(r, ev)
    [] ev.e = "mode"  -> [r EXCEPT !.w.mode = ev.m]
    [] ev.e = "cond"  -> [r EXCEPT !.w.cond[ev.n] = ev.c]
    [] ev.e = "term"  -> [r EXCEPT !.te = IF ev.te = <<>> THEN @ ELSE ev.te[1],
                                   !.ts = IF ev.ts = <<>> THEN @ ELSE ev.ts[1]]
    [] ev.e = "reterm" -> [r EXCEPT !.te = r.dte, !.ts = r.dts]
    \* structure conditions do nothing in exact time mode, and a run says so
    [] ev.e = "exact" -> IF ev.got = ev.had THEN r ELSE [r EXCEPT !.soft = @ \cup {"EXACTWARN"}]
    [] ev.e = "fail"  -> Hard(r, ev.c)      \* recorded by the harness: unexpected error, hang
    [] ev.e = "check" -> IF ev.v THEN r ELSE [r EXCEPT !.soft = @ \cup {ev.c}]

Report(r, tr, k) ==
  /\ \A c \in r.soft \ st.soft : PrintT(<<"VIOL", tr.id, k, c>>)
  /\ r.hard # "" => PrintT(<<"VIOL", tr.id, k, r.hard>>)
  /\ (r.hard # "" \/ k = Len(tr.ev)) => PrintT(<<"DONE", tr.id, k>>)

Next ==
  LET tr == Traces[t] IN
  /\ i <= Len(tr.ev)
  /\ st.hard = ""
  /\ LET r == Apply(st, tr, tr.ev[i])
     IN /\ Report(r, tr, i)
        /\ st' = r
  /\ i' = i + 1
  /\ t' = t

vars == <<t, i, st>>
Spec == Init /\ [][Next]_vars
==============================================================================
