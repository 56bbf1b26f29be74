-------------------------------- MODULE Sched --------------------------------
(***************************************************************************)
(* The scheduler in small steps, over small worlds (read from WORLD_FILE), *)
(* for every way a user can drive it within a number of operations and for *)
(* every order in which the nodes of a consideration set can be looked at  *)
(* (in worlds with few operations; elsewhere the first node that is ready  *)
(* is taken).                                                              *)
(*                                                                         *)
(* Here a context is nothing but its history h: what was executed and      *)
(* which units of time began or were completed.  The conditions are        *)
(* defined on that history.  SchedCore, the specification recordings of    *)
(* the implementation are judged by, works with counters instead;          *)
(* Agree says that the two are the same.  The other invariants are the     *)
(* properties, as statements about histories.                              *)
(*                                                                         *)
(* Every sequence of operations is printed, to be replayed on the          *)
(* implementation.                                                         *)
(*                                                                         *)
(* history of a context, a sequence of                                     *)
(*   S  a run begins (a: absolute time, on: it counts, step: step length)  *)
(*   P  a pass begins          x  node n executes                          *)
(*   y  a set is handed out (set, li: layer, at: absolute time)            *)
(*   c, p, u, q  a consideration set execution / pass / state update /     *)
(*      sequence is completed                                              *)
(*   w  a satisfaction of the at-most-N wrapper n is used up               *)
(*   d  the run is abandoned   e  the run ends by itself                   *)
(*   r  a user function raised: the run is given up                        *)
(*   g  the graph was changed while the run was suspended                  *)
(*   f  the context was started from another one: what is before belongs   *)
(*      to the other one                                                   *)
(***************************************************************************)
EXTENDS SchedCore, Json, IOUtils

Worlds == JsonDeserialize(IOEnv.WORLD_FILE)

VARIABLES W,     \* number of the world
          wd,    \* graph, conditions, mode
          env,   \* what user functions return
          tm,    \* termination conditions of the scheduler
          h,     \* history of each context
          ctl,   \* where the run of each context is
          B,     \* states of SchedCore each context may be in
          cur,   \* the operation in progress: context, sets it may go on for, functions that raise
          log    \* operations so far
vars == <<W, wd, env, tm, h, ctl, B, cur, log>>

MkW(par, cond, mode, dflt) ==
  [par |-> par, lay |-> Layers(par), bad |-> Unorderable(par), cond |-> cond, mode |-> mode, dflt |-> dflt]
Rest == [ph |-> "idle", li |-> 0, add |-> {}, te |-> [op |-> "Never"], ts |-> [op |-> "Never"], skip |-> FALSE,
         q |-> <<>>]
None == [x |-> 0, left |-> 0, boom |-> {}]

Init ==
  \E k \in DOMAIN Worlds :
    LET v == Worlds[k]  par == [x \in DOMAIN v.graph |-> SetOf(v.graph[x])] IN
    /\ W = k
    /\ wd = MkW(par, v.conds, v.mode, v.dflt)
    /\ env = [fl |-> v.fl, pv |-> v.pv, fin |-> [x \in 1..v.nctx |-> [n \in DOMAIN par |-> FALSE]]]
    /\ tm = [te |-> v.te, ts |-> v.ts]
    /\ h = [x \in 1..v.nctx |-> <<>>]
    /\ ctl = [x \in 1..v.nctx |-> Rest]
    /\ B = [x \in 1..v.nctx |-> {InitCtx(Len(v.graph), {<<q[1], q[2]>> : q \in SetOf(v.pairs)}, SetOf(v.ids))}]
    /\ cur = None
    /\ log = <<>>

EnvOf(x) == [fl |-> env.fl, pv |-> env.pv, fin |-> env.fin[x], boom |-> cur.boom]

------------------------------------------------------------------------------
(* What a history says *)

MaxIn(I) == IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
LastOf(g, M) == MaxIn({i \in DOMAIN g : g[i].m \in M})
After(g, i) == SubSeq(g, i + 1, Len(g))
Number(g, M) == Cardinality({i \in DOMAIN g : g[i].m \in M})
\* the part that is the context's own
Own(g) == After(g, LastOf(g, {"f"}))

Begins(k) == CASE k = CSE -> {"c", "P", "S", "q"} [] k = PASS -> {"P", "S", "q"}
               [] k = ESU -> {"S", "q"} [] k = SEQ -> {"q"} [] k = LIFE -> {}
\* executions of n within the current unit of scale k
Calls(g, n, k) ==
  LET b == LastOf(g, Begins(k)) IN Cardinality({i \in b + 1..Len(g) : g[i].m = "x" /\ g[i].n = n})
\* executions of d since the last execution of o in this run
Since(g, d, o) ==
  LET b == MaxIn({i \in DOMAIN g : g[i].m = "S" \/ (g[i].m = "x" /\ g[i].n = o)})
      a == IF b # 0 /\ d = o /\ g[b].m = "x" THEN b ELSE b + 1
  IN Cardinality({i \in a..Len(g) : g[i].m = "x" /\ g[i].n = d})
LastSet(g) == LET i == LastOf(g, {"y"}) IN IF i = 0 THEN NoSet ELSE g[i].set
Sets(g) == SelectSeq(g, LAMBDA v : v.m = "y")

Unit(k) == CASE k = CSE -> "c" [] k = PASS -> "p" [] k = ESU -> "u" [] k = SEQ -> "q"
FromUnit(k) == {Unit(j) : j \in k..3}
AllUnits == {"c", "p", "u", "q"}
\* units of scale q completed within the current unit of scale b
Within(g, b, q) ==
  LET v == Own(g) IN
  IF b = LIFE THEN Number(v, {Unit(q)}) ELSE Number(After(v, LastOf(v, FromUnit(b))), {Unit(q)})
Clock(g) ==
  LET v == Own(g) IN
  [j \in 1..5 |-> IF j = 5 THEN 0
                  ELSE IF j = 4 THEN Number(v, {"q"})
                  ELSE Number(After(v, LastOf(v, FromUnit(j))), {Unit(j - 1)})]
\* absolute time: where the last run that counted it began, plus its steps
Absolute(g) ==
  LET v == Own(g)
      i == MaxIn({j \in DOMAIN v : v[j].m = "S" /\ v[j].on})
      e == IF \E j \in i + 1..Len(v) : v[j].m = "S"
           THEN (CHOOSE j \in i + 1..Len(v) : v[j].m = "S" /\ \A l \in i + 1..j - 1 : v[l].m # "S") - 1
           ELSE Len(v)
  IN IF i = 0 THEN 0 ELSE v[i].a + v[i].step * Number(SubSeq(v, i + 1, e), {"c"})
StepNow(g) == LET i == LastOf(Own(g), {"S"}) IN IF i = 0 THEN 0 ELSE Own(g)[i].step
UsedUp(g, id) == LET v == Own(g) IN Cardinality({i \in DOMAIN v : v[i].m = "w" /\ v[i].n = id})

(* the conditions *)
Lapsed(g, op, k) ==
  CASE op \in CseOps -> Within(g, k, CSE) [] op \in PassOps -> Within(g, k, PASS)
    [] op \in EsuOps -> Within(g, k, ESU) [] op \in SeqOps -> Within(g, LIFE, SEQ)
InTime(c, o, g, w) ==
  LET now == Absolute(g)
      first == IF OneSet(w) /\ c.st >= 0 THEN c.st
               ELSE IF \E k \in DOMAIN Queue(w) : o \in Queue(w)[k]
                    THEN ((CHOOSE k \in DOMAIN Queue(w) : o \in Queue(w)[k]) - 1) * StepNow(g) ELSE 0
  IN /\ c.rep > 0 => \E k \in -60..60 : now = first + k * c.rep
     /\ c.st >= 0 => (now > c.st \/ (now = c.st /\ c.si))
     /\ c.en >= 0 => (now < c.en \/ (now = c.en /\ c.ei))

RECURSIVE SatH(_, _, _, _, _)
SatH(c, o, g, w, e) ==
  LET op == c.op IN
  CASE op = "Default" -> \A d \in w.par[o] : Since(g, d, o) >= 1
    [] op = "Always" -> TRUE
    [] op = "Never" -> FALSE
    [] op \in CountOps -> Rel(op, Calls(g, c.d[1], c.ts), c.n)
    [] op = "AfterNCallsCombined" ->
         LET b == LastOf(g, Begins(c.ts)) IN
         \* how often one of them executed, once per mention
         Cardinality({<<i, k>> \in (b + 1..Len(g)) \X DOMAIN c.d : g[i].m = "x" /\ g[i].n = c.d[k]}) >= c.n
    [] op = "EveryNCalls" -> Since(g, c.d[1], o) >= c.n
    [] op = "JustRan" -> LastSet(g) # NoSet /\ c.d[1] \in LastSet(g)
    [] op = "AllHaveRun" -> \A d \in Deps(c, w) : Calls(g, d, c.ts) > 0
    [] op = "WhenFinished" -> e.fin[c.d[1]]
    [] op = "WhenFinishedAny" -> \E d \in Deps(c, w) : e.fin[d]
    [] op = "WhenFinishedAll" -> \A d \in Deps(c, w) : e.fin[d]
    [] op = "While" -> e.fl[c.f]
    [] op = "WhileNot" -> ~e.fl[c.f]
    [] op = "Threshold" -> Compare(e.pv[c.p], c)
    [] op \in SeqOps -> Rel(op, Lapsed(g, op, LIFE), c.n)
    [] op \in CseOps \cup PassOps \cup EsuOps -> Rel(op, Lapsed(g, op, c.ts), c.n)
    [] op = "AtEnvironmentStateUpdateStart" -> Within(g, ESU, PASS) = 0
    [] op = "AtEnvironmentStateUpdateNStart" -> Within(g, ESU, PASS) = 0 /\ Within(g, c.ts, ESU) = c.n
    [] op = "AtEnvironmentSequenceStart" -> Within(g, SEQ, ESU) = 0
    [] op = "AtEnvironmentSequenceNStart" -> Within(g, SEQ, ESU) = 0 /\ Within(g, LIFE, SEQ) = c.n
    [] op = "All" -> \A k \in DOMAIN c.c : SatH(c.c[k], o, g, w, e)
    [] op = "Any" -> \E k \in DOMAIN c.c : SatH(c.c[k], o, g, w, e)
    [] op = "Not" -> ~SatH(c.c[1], o, g, w, e)
    [] op = "NWhen" -> UsedUp(g, c.id) < c.n /\ SatH(c.c[1], o, g, w, e)
    [] op = "TimeInterval" -> InTime(c, o, g, w)
    [] op = "TimeTermination" -> Absolute(g) > c.t \/ (Absolute(g) = c.t /\ c.inc)

\* the same when some user functions raise
RECURSIVE ResH(_, _, _, _, _)
ResH(c, o, g, w, e) ==
  LET plain == {IF SatH(c, o, g, w, e) THEN "T" ELSE "F"}
      of(k) == ResH(c.c[k], o, g, w, e)
      D == {k \in DOMAIN (IF c.op \in {"All", "Any"} THEN c.c ELSE <<>>) : TRUE}
      one(v) == \E k \in D : v \in of(k)
      each(v) == \A k \in D : v \in of(k)
      If(b, v) == IF b THEN {v} ELSE {}
  IN
  CASE c.op \in {"While", "WhileNot"} /\ c.f \in e.boom -> {"E"}
    [] c.op = "Threshold" /\ -c.p \in e.boom -> {"E"}
    [] c.op = "WhenFinished" /\ 100 + c.d[1] \in e.boom -> {"E"}
    [] c.op = "All" -> If(each("T"), "T") \cup If(one("F"), "F") \cup If(one("E"), "E")
    [] c.op = "Any" -> If(one("T"), "T") \cup If(each("F"), "F") \cup If(one("E"), "E")
    [] c.op = "Not" -> LET R == ResH(c.c[1], o, g, w, e) IN
         If("T" \in R, "F") \cup If("F" \in R, "T") \cup If("E" \in R, "E")
    [] c.op = "NWhen" -> IF UsedUp(g, c.id) >= c.n THEN {"F"} ELSE ResH(c.c[1], o, g, w, e)
    [] OTHER -> plain

\* satisfactions used up by a condition that was found satisfied when looked at
RECURSIVE Spent(_, _, _, _, _)
Spent(c, o, g, w, e) ==
  CASE c.op = "NWhen" ->
         IF UsedUp(g, c.id) >= c.n THEN <<>>
         ELSE (IF SatH(c.c[1], o, g, w, e) THEN <<[m |-> "w", n |-> c.id]>> ELSE <<>>)
                \o Spent(c.c[1], o, g, w, e)
    [] c.op = "Not" -> Spent(c.c[1], o, g, w, e)
    [] OTHER -> <<>>

------------------------------------------------------------------------------
(* What a user does *)

V == Worlds[W]
Idle4All == \A x \in DOMAIN ctl : ctl[x].ph = "idle"
Op(o) == log' = Append(log, o)

\* the earliest moments the next run may begin at
Skips(g, w, step) ==
  LET now == Absolute(g)
      pl == step * Len(Queue(w))
      mayskip(a) == \A n \in DOMAIN w.cond : w.cond[n].op = "TimeInterval" /\ w.cond[n].st >= a
  IN IF pl = 0 THEN {now}
     ELSE LET K == {k * pl : k \in 0..30}
              S == {a \in K : a > now /\ mayskip(a)}
          IN {now} \cup {a \in S : \A b \in S : b <= a}

Begin(x, k, base, skip, left, boom) ==
  LET T == IF k = 0 THEN [te |-> <<>>, ts |-> <<>>] ELSE V.terms[k]
      te == IF T.te = <<>> THEN tm.te ELSE T.te[1]
      ts == IF T.ts = <<>> THEN tm.ts ELSE T.ts[1]
      on == AbsConds(wd, te, ts) # {}
      step == IF on THEN StepLength(wd, te, ts) ELSE StepNow(h[x])
      g0 == IF base = 0 THEN h[x] ELSE Append(h[base], [m |-> "f"])
      B0 == IF base = 0 THEN B[x]
            ELSE {[s EXCEPT !.cnt = b.cnt, !.use = b.use, !.last = b.last] : s \in B[x], b \in B[base]}
  IN
  IF wd.bad
  THEN UNCHANGED <<h, ctl, B, cur>>      \* refused
  ELSE \E a \in IF on THEN Skips(g0, wd, step) ELSE {Absolute(g0)} :
       /\ h' = [h EXCEPT ![x] = Append(g0, [m |-> "S", a |-> a, on |-> on, step |-> step])]
       /\ ctl' = [ctl EXCEPT ![x] = [Rest EXCEPT !.ph = "top", !.te = te, !.ts = ts, !.skip = skip]]
       /\ B' = [B EXCEPT ![x] = {s \in UNION {RunStarts(b, wd, te, ts, skip) : b \in B0} : s.abs = a}]
       /\ cur' = [x |-> x, left |-> left, boom |-> boom]

Resumed(x) ==
  /\ h' = [h EXCEPT ![x] = Append(IF ctl[x].ph = "susp" THEN @ ELSE Append(@, [m |-> "c"]),
                                  [m |-> IF ctl[x].ph = "susp" THEN "c" ELSE "p"])]
  /\ ctl' = [ctl EXCEPT ![x].ph = IF @ = "susp" THEN "layer" ELSE "top", ![x].add = {}]

Do(o) ==
  CASE o[1] \in {"go", "sk"} ->
         /\ ctl[o[2]].ph = "idle"
         /\ Begin(o[2], o[3], 0, o[1] = "sk", V.cap, {})
         /\ UNCHANGED <<wd, env, tm>>
    [] o[1] = "fk" ->
         /\ ctl[o[2]].ph = "idle" /\ h[o[2]] = <<>>
         /\ Begin(o[2], o[3], 1, FALSE, V.cap, {})
         /\ UNCHANGED <<wd, env, tm>>
    [] o[1] \in {"st", "sb"} ->
         LET boom == IF o[1] = "sb" THEN {o[3]} ELSE {} IN
         IF ctl[o[2]].ph = "idle"
         THEN Begin(o[2], IF o[1] = "sb" THEN 0 ELSE o[3], 0, FALSE, 1, boom) /\ UNCHANGED <<wd, env, tm>>
         ELSE /\ Resumed(o[2])
              /\ cur' = [x |-> o[2], left |-> 1, boom |-> boom]
              /\ UNCHANGED <<wd, env, tm, B>>
    [] o[1] = "dr" ->
         /\ ctl[o[2]].ph # "idle"
         /\ ctl' = [ctl EXCEPT ![o[2]] = Rest]
         /\ h' = [h EXCEPT ![o[2]] = Append(@, [m |-> "d"])]
         /\ B' = [B EXCEPT ![o[2]] = {Abandon(s) : s \in @}]
         /\ UNCHANGED <<wd, env, tm, cur>>
    [] o[1] = "sq" ->
         /\ ctl[o[2]].ph = "idle"
         /\ h' = [h EXCEPT ![o[2]] = Append(@, [m |-> "q"])]
         /\ B' = [B EXCEPT ![o[2]] = {EndSequence(s) : s \in @}]
         /\ UNCHANGED <<wd, env, tm, ctl, cur>>
    [] o[1] = "fl" -> env' = [env EXCEPT !.fl[o[2]] = ~@] /\ UNCHANGED <<wd, tm, h, ctl, B, cur>>
    [] o[1] = "pv" -> env' = [env EXCEPT !.pv[o[2]] = o[3]] /\ UNCHANGED <<wd, tm, h, ctl, B, cur>>
    [] o[1] = "fn" -> env' = [env EXCEPT !.fin[o[2]][o[3]] = ~@] /\ UNCHANGED <<wd, tm, h, ctl, B, cur>>
    [] o[1] = "ed" ->
         /\ Idle4All
         /\ LET p == [wd.par EXCEPT ![o[3]] = IF o[2] \in @ THEN @ \ {o[2]} ELSE @ \cup {o[2]}]
            IN wd' = MkW(p, wd.cond, wd.mode, wd.dflt)
         /\ UNCHANGED <<env, tm, h, ctl, B, cur>>
    [] o[1] = "me" ->
         \* while runs may be suspended; what is left of a pass follows the old or the new graph
         LET p == [wd.par EXCEPT ![o[3]] = IF o[2] \in @ THEN @ \ {o[2]} ELSE @ \cup {o[2]}]
             mid == {x \in DOMAIN ctl : ctl[x].ph = "susp"}
         IN /\ ~Unorderable(p)
            /\ wd' = MkW(p, wd.cond, wd.mode, wd.dflt)
            /\ \E old \in SUBSET {x \in mid : ctl[x].q = <<>>} :
                 ctl' = [x \in DOMAIN ctl |-> IF x \in old THEN [ctl[x] EXCEPT !.q = Queue(wd)] ELSE ctl[x]]
            /\ h' = [x \in DOMAIN h |-> IF ctl[x].ph = "idle" THEN h[x] ELSE Append(h[x], [m |-> "g"])]
            /\ B' = [x \in DOMAIN B |-> UNION {Overtaken(s, wd) : s \in B[x]}]
            /\ UNCHANGED <<env, tm, cur>>
    [] o[1] = "mo" ->
         /\ Idle4All
         /\ wd' = [wd EXCEPT !.mode = IF @ = "std" THEN "exact" ELSE "std"]
         /\ UNCHANGED <<env, tm, h, ctl, B, cur>>
    [] o[1] = "co" ->
         /\ Idle4All
         /\ wd' = [wd EXCEPT !.cond[o[2]] = V.alts[o[3]]]
         /\ UNCHANGED <<env, tm, h, ctl, B, cur>>
    [] o[1] = "tm" ->
         /\ Idle4All
         /\ tm' = [te |-> IF V.terms[o[2]].te = <<>> THEN tm.te ELSE V.terms[o[2]].te[1],
                   ts |-> IF V.terms[o[2]].ts = <<>> THEN tm.ts ELSE V.terms[o[2]].ts[1]]
         /\ UNCHANGED <<wd, env, h, ctl, B, cur>>
    [] o[1] = "rt" ->
         /\ Idle4All
         /\ tm' = [te |-> V.te, ts |-> V.ts]
         /\ UNCHANGED <<wd, env, h, ctl, B, cur>>

User ==
  /\ cur = None
  /\ Len(log) < V.depth
  /\ \E k \in DOMAIN V.ops : Op(V.ops[k]) /\ Do(V.ops[k])

------------------------------------------------------------------------------
(* What the scheduler does *)

Met(x) == ResH([op |-> "Any", c |-> <<ctl[x].te, ctl[x].ts>>], 0, h[x], wd, EnvOf(x))
RunOn(x) == LET g == h[x] IN g[LastOf(g, {"S"})].on
Quiet(x) == LET g == h[x] IN ~\E i \in LastOf(g, {"P"})..Len(g) : g[i].m = "x"
QueueHere(x) == IF ctl[x].q = <<>> THEN Queue(wd) ELSE ctl[x].q
Could(x, v) == {n \in QueueHere(x)[ctl[x].li] \ ctl[x].add : v \in ResH(wd.cond[n], n, h[x], wd, EnvOf(x))}
Ready(x) == Could(x, "T")

\* a user function raises; what is not handed out was not executed
Burst(x) ==
  LET g == h[x]
      b == LET I == {i \in DOMAIN g : g[i].m \notin {"x", "w"}} IN MaxIn(I)
  IN /\ \E keep \in {{}, {"w"}} :
          h' = [h EXCEPT ![x] = SubSeq(g, 1, b) \o SelectSeq(After(g, b), LAMBDA v : v.m \in keep) \o <<[m |-> "r"]>>]
     /\ ctl' = [ctl EXCEPT ![x] = Rest]
     /\ B' = [B EXCEPT ![x] = {o.s : o \in {o \in UNION {NextOf(s, wd, EnvOf(x)) : s \in @} : o.k = "raise"}}]
     /\ cur' = None

Hand(x, set, li, ph) ==
  LET stop == cur.left = 1 /\ log[Len(log)][1] \notin {"st", "sb"}
      g == Append(h[x], [m |-> "y", set |-> set, li |-> li, at |-> Absolute(h[x])])
      outs == UNION {NextOf(s, wd, EnvOf(x)) : s \in B[x]}
      B2 == {o.s : o \in {o \in outs : o.k = "yield" /\ o.set = set}}
  IN IF stop
     THEN /\ h' = [h EXCEPT ![x] = Append(g, [m |-> "d"])]
          /\ ctl' = [ctl EXCEPT ![x] = Rest]
          /\ B' = [B EXCEPT ![x] = {Abandon(s) : s \in B2}]
          /\ cur' = None
     ELSE /\ h' = [h EXCEPT ![x] = g]
          /\ ctl' = [ctl EXCEPT ![x].ph = ph]
          /\ B' = [B EXCEPT ![x] = B2]
          /\ cur' = IF cur.left = 1 THEN None ELSE [cur EXCEPT !.left = @ - 1]

Work ==
  /\ cur # None
  /\ UNCHANGED <<W, wd, env, tm, log>>
  /\ LET x == cur.x  c == ctl[x] IN
     \/ c.ph = "top" /\ "T" \in Met(x) /\
            /\ h' = [h EXCEPT ![x] = (IF c.skip THEN @ ELSE Append(@, [m |-> "u"])) \o <<[m |-> "e"]>>]
            /\ ctl' = [ctl EXCEPT ![x] = Rest]
            /\ B' = [B EXCEPT ![x] = {o.s : o \in {o \in UNION {NextOf(s, wd, EnvOf(x)) : s \in @} : o.k = "end"}}]
            /\ cur' = None
     \/ c.ph = "top" /\ "F" \in Met(x) /\
            /\ h' = [h EXCEPT ![x] = Append(@, [m |-> "P"])]
            /\ ctl' = [ctl EXCEPT ![x].ph = "layer", ![x].li = 0, ![x].q = <<>>]
            /\ UNCHANGED <<B, cur>>
     \/ c.ph = "layer" /\
            /\ \E stop \in IF c.li >= Len(QueueHere(x)) THEN {"T"} ELSE Met(x) \ {"E"} :
                 ctl' = [ctl EXCEPT ![x] = IF stop = "T" THEN [c EXCEPT !.ph = "passend"]
                                           ELSE [c EXCEPT !.ph = "fill", !.li = @ + 1, !.add = {}]]
            /\ UNCHANGED <<h, B, cur>>
     \/ /\ \/ c.ph = "top" /\ "E" \in Met(x)
           \/ c.ph = "layer" /\ c.li < Len(QueueHere(x)) /\ "E" \in Met(x)
           \/ c.ph = "fill" /\ Could(x, "E") # {}
        /\ Burst(x)
     \/ c.ph = "fill" /\ Ready(x) # {} /\
            /\ \E n \in IF V.orders THEN Ready(x) ELSE {CHOOSE n \in Ready(x) : \A o \in Ready(x) : n <= o} :
                 /\ h' = [h EXCEPT ![x] = (@ \o Spent(wd.cond[n], n, @, wd, EnvOf(x))) \o <<[m |-> "x", n |-> n]>>]
                 /\ ctl' = [ctl EXCEPT ![x].add = @ \cup {n}]
            /\ UNCHANGED <<B, cur>>
     \/ c.ph = "fill" /\ QueueHere(x)[c.li] \ c.add = Could(x, "F") /\
            IF c.add # {} \/ RunOn(x)
            THEN Hand(x, c.add, c.li, "susp")
            ELSE ctl' = [ctl EXCEPT ![x].ph = "layer"] /\ UNCHANGED <<h, B, cur>>
     \/ c.ph = "passend" /\
            IF Quiet(x) /\ ~RunOn(x)
            THEN Hand(x, {}, 0, "suspE")
            ELSE /\ h' = [h EXCEPT ![x] = Append(@, [m |-> "p"])]
                 /\ ctl' = [ctl EXCEPT ![x].ph = "top"]
                 /\ UNCHANGED <<B, cur>>
     \/ c.ph \in {"susp", "suspE"} /\
            Resumed(x) /\ UNCHANGED <<B, cur>>

Report ==
  /\ cur = None /\ Len(log) = V.depth
  /\ PrintT(<<"HIST", W, ToJson(log)>>)
  /\ UNCHANGED <<wd, env, tm, h, ctl, B, cur, W>>
  /\ log' = Append(log, <<"end">>)

Next == (User /\ W' = W) \/ Work \/ Report
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* The counters of SchedCore are what the history says *)

AtRest(x) == ctl[x].ph \in {"idle", "susp", "suspE"} /\ (cur.x = x => cur.left # 0)
Fits(s, g) ==
  /\ \A k \in Scales : \A n \in DOMAIN wd.par : s.cnt[k][n] = Calls(g, n, k)
  /\ \A pr \in DOMAIN s.use : s.use[pr] = Since(g, pr[1], pr[2])
  /\ s.last = LastSet(g)
  /\ s.clk = Clock(g)
  /\ s.abs = Absolute(g)
  /\ \A b \in {ESU, SEQ, LIFE} : \A q \in 0..3 : (q < b) => s.tot[b][q] = Within(g, b, q)
  /\ \A i \in DOMAIN s.nw : s.nw[i] = UsedUp(g, i)
  /\ LET v == Own(g)  j == LastOf(v, AllUnits) IN
     /\ s.prv.has = (j # 0)
     /\ j # 0 => s.prv.clk = Clock(SubSeq(v, 1, j - 1)) /\ s.prv.abs = Absolute(SubSeq(v, 1, j - 1))
Agree == \A x \in DOMAIN ctl : AtRest(x) => \E s \in B[x] : Fits(s, h[x])

------------------------------------------------------------------------------
(* The properties *)

Runs(g) == {i \in DOMAIN g : g[i].m = "S"}
RunNow(g) == After(g, LastOf(g, {"S"}))
PassNow(g) == After(g, LastOf(g, {"P", "S"}))
AnyOn(x) == ctl[x].ph # "idle"
Steady(g) == Number(g, {"g"}) = 0

\* C01: within a pass the layers come in order, each at most once, and a set belongs to one layer
Ordered ==
  \A x \in DOMAIN ctl : AnyOn(x) =>
    LET s == Sets(PassNow(h[x])) IN
    /\ \A i, j \in DOMAIN s : i < j => s[i].li < s[j].li
    /\ (Steady(PassNow(h[x])) /\ ctl[x].q = <<>>) =>
         \A i \in DOMAIN s : s[i].set # {} => s[i].set \subseteq Queue(wd)[s[i].li]
    /\ (wd.mode = "std" /\ Steady(PassNow(h[x]))) =>
         \A i, j \in DOMAIN s : \A a \in s[i].set, b \in s[j].set : (i >= j) => a \notin StrictUp(NoSelf(wd.par), b)
    /\ Steady(PassNow(h[x])) => \A n \in DOMAIN wd.par : Calls(h[x], n, PASS) <= 1
\* C02: nobody is left out, an empty set only if nothing executed in the whole pass
Complete ==
  \A x \in DOMAIN ctl :
    (ctl[x].ph = "susp" /\ cur.x # x) =>
      LET g == h[x]  y == g[LastOf(g, {"y"})] IN
      /\ y.set = ctl[x].add
      /\ \A i \in DOMAIN Sets(RunNow(g)) : (Sets(RunNow(g))[i].set = {}) =>
            (RunOn(x) \/ Sets(RunNow(g))[i].li = 0)
\* C03: without conditions everything executes once, layer by layer
Plain(w) == \A n \in DOMAIN w.cond : w.cond[n].op = "Default"
IsDefaultTe(c) == c.op = "AllHaveRun" /\ c.d = <<>> /\ c.ts = ESU
Defaults ==
  \A x \in DOMAIN ctl : \A n \in DOMAIN wd.cond :
    (AnyOn(x) /\ Plain(wd) /\ wd.mode = "std" /\ IsDefaultTe(ctl[x].te) /\ ctl[x].ts.op = "Never" /\ ~RunOn(x)
       /\ Steady(RunNow(h[x]))) =>
      LET s == Sets(RunNow(h[x])) IN
      /\ Len(s) <= Len(wd.lay)
      /\ \A i \in DOMAIN s : s[i].set = wd.lay[i]
\* C04: a node that waits for n calls of another one gets its n calls, every time
Waits ==
  \A x \in DOMAIN ctl : \A o \in DOMAIN wd.cond :
    (AnyOn(x) /\ wd.cond[o].op = "EveryNCalls" /\ wd.cond[o].d[1] # o) =>
      LET g == RunNow(h[x])
          I == {i \in DOMAIN g : g[i].m = "x" /\ g[i].n = o}
          d == wd.cond[o].d[1]
          between(a, b) == Cardinality({i \in a..b : g[i].m = "x" /\ g[i].n = d})
      IN \A i \in I : LET p == MaxIn({j \in I : j < i}) IN between(p + 1, i) >= wd.cond[o].n
\* C07: a run that ended by itself met a termination condition; under the default one everything has run
Ended ==
  \A x \in DOMAIN ctl :
    LET g == h[x]  n == Len(g) IN
    (n > 0 /\ g[n].m = "e" /\ cur = None /\ IsDefaultTe(V.te) /\ V.ts.op = "Never" /\ V.terms = <<>>
       /\ log # <<>> /\ log[Len(log)][1] \in {"go", "sk", "st", "fk"} /\ log[Len(log)][2] = x) =>
      LET r == RunNow(g) IN
      /\ \A k \in DOMAIN wd.par : \E i \in DOMAIN r : r[i].m = "x" /\ r[i].n = k
      \* and not any later than that
      /\ \A i \in DOMAIN r : r[i].m = "P" =>
            \E k \in DOMAIN wd.par : ~\E j \in 1..i : r[j].m = "x" /\ r[j].n = k
\* C08: sets that were handed out, came back, or were given up
Counted ==
  \A x \in DOMAIN ctl :
    LET g == Own(h[x])
        pend == IF ctl[x].ph \in {"susp", "suspE"} THEN 1 ELSE 0
        lost == {i \in DOMAIN g : g[i].m = "d"}
    IN Number(g, {"y"}) = Number(g, {"c"}) + pend + Cardinality(lost)
\* C26: nothing counts as executed but what was handed out
Handed ==
  \A x \in DOMAIN ctl : AtRest(x) =>
    \A n \in DOMAIN wd.par :
      Calls(h[x], n, LIFE) = Cardinality({i \in DOMAIN h[x] : h[x][i].m = "y" /\ n \in h[x][i].set})
\* C11: a run starts with nothing executed
Fresh ==
  \A x \in DOMAIN ctl :
    (h[x] # <<>> /\ h[x][Len(h[x])].m = "S") =>
      /\ \A n \in DOMAIN wd.par : Calls(h[x], n, ESU) = 0 /\ \A o \in DOMAIN wd.par : Since(h[x], n, o) = 0
      /\ \A n \in DOMAIN wd.par : Calls(h[x], n, SEQ) <= Calls(h[x], n, LIFE)
\* C17: no run on a graph that cannot be ordered
Refuses == wd.bad => Idle4All
\* C18: equal steps; interval conditions are satisfied exactly at their times
Intervalled(n) == wd.cond[n].op = "TimeInterval"
Timely ==
  \A x \in DOMAIN ctl :
    (AnyOn(x) /\ RunOn(x) /\ Steady(RunNow(h[x]))) =>
      LET s == Sets(RunNow(h[x]))
          b == h[x][LastOf(h[x], {"S"})]
          L == Len(Queue(wd))
          iv == UNION {Intervals(wd.cond[n]) : n \in DOMAIN wd.cond}
                  \cup Intervals(ctl[x].te) \cup Intervals(ctl[x].ts)
      IN
      /\ \A i \in DOMAIN s : s[i].at = b.a + (i - 1) * b.step
      /\ b.step > 0 /\ (wd.mode = "std" => \A v \in iv : v % (b.step * L) = 0)
      /\ \A i \in DOMAIN s : \A n \in DOMAIN wd.cond :
           (Intervalled(n) /\ n \in Queue(wd)[s[i].li]) =>
             LET c == wd.cond[n]
                 off == IF L = 1 /\ c.st >= 0 THEN c.st ELSE (s[i].li - 1) * b.step
                 fits == /\ (c.rep = 0 \/ (s[i].at - off) % c.rep = 0)
                         /\ (c.st < 0 \/ c.st < s[i].at \/ (c.si /\ c.st = s[i].at))
                         /\ (c.en < 0 \/ c.en > s[i].at \/ (c.ei /\ c.en = s[i].at))
             IN n \in s[i].set <=> fits
\* C19: one set for all
Together == \A x \in DOMAIN ctl : (AnyOn(x) /\ wd.mode = "exact") => Len(Queue(wd)) = 1
=============================================================================
