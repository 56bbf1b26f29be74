------------------------------ MODULE SchedCore ------------------------------
(***************************************************************************)
(* The scheduler: state of one execution context, the conditions, and the  *)
(* steps a run is made of.  Everything here is a pure operator so that the *)
(* exhaustive model (Sched.tla) and the trace monitor (SchedTrace.tla)     *)
(* share one source of truth.                                              *)
(*                                                                         *)
(* World  w  (fixed while a run is in progress)                            *)
(*   par   senders of every node       lay   layers of the graph           *)
(*   cond  basic condition per node, [op |-> "Default"] if none is stated  *)
(*   mode  "std" / "exact"             dflt  default step in ticks         *)
(* Environment  e  (may change while a run is suspended)                   *)
(*   fl    values of user flags        fin   finished status per node      *)
(*   pv    values of user parameters                                       *)
(*   boom  user functions that raise: flag f, parameter -p, finished       *)
(*         status of node n as 100 + n                                     *)
(* Context state  s                                                        *)
(*   cnt   executions of every node within the current unit of each scale  *)
(*   use   executions of a dependency since the last execution of an owner *)
(*   last  last execution set, {-1} if there is none                       *)
(*   clk   clock <<cse, pass, state update, sequence, life>>               *)
(*   prv   [has, clk, abs] clock before the last advance                   *)
(*   tot   units of a scale completed within the current unit of another   *)
(*   abs, step, absOn   absolute time, step length (ticks), enabled        *)
(*   nw    satisfactions used up per at-most-N wrapper                     *)
(*   ctl   where the run is: [ph, li, chg, kind, te, ts, skip, q]          *)
(*         q: consideration sets of the pass if they are others than those *)
(*         of the graph (which was changed during the pass), else <<>>     *)
(***************************************************************************)
EXTENDS Graphs, TLC

CSE == 0   PASS == 1   ESU == 2   SEQ == 3   LIFE == 4
Scales == 0..4
NoSet  == {-1}

SetOf(q) == {q[k] : k \in DOMAIN q}
RECURSIVE SumOver(_, _)
SumOver(f, q) == IF q = <<>> THEN 0 ELSE f[Head(q)] + SumOver(f, Tail(q))
AbsV(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE GcdSet(_)
GcdSet(xs) == IF xs = {} THEN 0
              ELSE LET x == CHOOSE y \in xs : TRUE IN Gcd(x, GcdSet(xs \ {x}))
MaxOf(a, b) == IF a >= b THEN a ELSE b

Idle == [ph |-> "idle"]
ZeroTot == [b \in {ESU, SEQ, LIFE} |-> [q \in 0..3 |-> 0]]

InitCtx(n, pairs, ids) ==
  [cnt |-> [k \in Scales |-> [x \in 1..n |-> 0]],
   use |-> [pr \in pairs |-> 0],
   last |-> NoSet, clk |-> <<0, 0, 0, 0, 0>>,
   prv |-> [has |-> FALSE, clk |-> <<0, 0, 0, 0, 0>>, abs |-> 0],
   tot |-> ZeroTot, abs |-> 0, step |-> 0, absOn |-> FALSE,
   nw |-> [i \in ids |-> 0], ctl |-> Idle]

------------------------------------------------------------------------------
(* Time *)

\* one unit of scale k is completed
Inc(s, k) ==
  [s EXCEPT
    !.prv = [has |-> TRUE, clk |-> s.clk, abs |-> s.abs],
    !.clk = [j \in 1..5 |-> IF j - 1 = k THEN @[j] + 1
                            ELSE IF j - 1 < k THEN 0 ELSE @[j]],
    !.tot = [b \in {ESU, SEQ, LIFE} |->
               IF b <= k THEN [q \in 0..3 |-> 0]
               ELSE [@[b] EXCEPT ![k] = @ + 1]],
    !.abs = IF s.absOn /\ k = CSE THEN @ + s.step ELSE @]

\* counts limited to scale k and every finer one start again
ResetCnt(s, k) ==
  [s EXCEPT !.cnt = [j \in Scales |-> IF j <= k THEN [x \in DOMAIN @[j] |-> 0] ELSE @[j]]]

\* an environment sequence is declared complete
EndSequence(s) == ResetCnt(Inc(s, SEQ), SEQ)

------------------------------------------------------------------------------
(* Queue of consideration sets *)

Queue(w) == IF w.mode = "exact" THEN <<DOMAIN w.par>> ELSE w.lay
LayerOf(w, o) == IF \E k \in DOMAIN Queue(w) : o \in Queue(w)[k]
                 THEN CHOOSE k \in DOMAIN Queue(w) : o \in Queue(w)[k] ELSE 0
QueueNow(s, w) == IF s.ctl.q = <<>> THEN Queue(w) ELSE s.ctl.q
\* The graph is changed while a run is suspended within a pass: what is left
\* of the pass may follow the old graph or the new one.
Overtaken(s, w) == IF s.ctl.ph = "susp" /\ s.ctl.q = <<>> THEN {s, [s EXCEPT !.ctl.q = Queue(w)]} ELSE {s}
OneSet(w) == w.mode = "exact" \/ Len(w.lay) = 1

------------------------------------------------------------------------------
(* Conditions.  Sat(c, o, s, w, e) = the condition c, owned by node o      *)
(* (0: nobody), holds in context state s.                                  *)

CountOps   == {"BeforeNCalls", "AtNCalls", "AfterCall", "AfterNCalls"}
CseOps     == {"BeforeConsiderationSetExecution", "AtConsiderationSetExecution",
               "AfterConsiderationSetExecution", "AfterNConsiderationSetExecutions"}
PassOps    == {"BeforePass", "AtPass", "AfterPass", "AfterNPasses", "EveryNPasses"}
EsuOps     == {"BeforeEnvironmentStateUpdate", "AtEnvironmentStateUpdate",
               "AfterEnvironmentStateUpdate", "AfterNEnvironmentStateUpdates"}
SeqOps     == {"AtEnvironmentSequence", "AfterEnvironmentSequence",
               "AfterNEnvironmentSequences"}

BeforeOps == {"BeforeNCalls", "BeforeConsiderationSetExecution", "BeforePass",
              "BeforeEnvironmentStateUpdate"}
AtOps     == {"AtNCalls", "AtConsiderationSetExecution", "AtPass",
              "AtEnvironmentStateUpdate", "AtEnvironmentSequence"}
AfterOps  == {"AfterCall", "AfterConsiderationSetExecution", "AfterPass",
              "AfterEnvironmentStateUpdate", "AfterEnvironmentSequence"}
AfterNOps == {"AfterNCalls", "AfterNConsiderationSetExecutions", "AfterNPasses",
              "AfterNEnvironmentStateUpdates", "AfterNEnvironmentSequences"}

Rel(op, have, n) ==
  CASE op \in BeforeOps -> have < n
    [] op \in AtOps     -> have = n
    [] op \in AfterOps  -> have > n
    [] op \in AfterNOps -> have >= n
    [] op = "EveryNPasses" -> have % n = 0

Near(v, c) == 100 * AbsV(v - c.thr) <= 100 * c.atol + c.rtol * AbsV(c.thr)
Compare(v, c) ==
  CASE c.cmp = "<"  -> v < c.thr
    [] c.cmp = "<=" -> v <= c.thr
    [] c.cmp = ">"  -> v > c.thr
    [] c.cmp = ">=" -> v >= c.thr
    [] c.cmp = "==" -> Near(v, c)
    [] c.cmp = "!=" -> ~Near(v, c)

IntervalSat(c, o, s, w) ==
  LET l   == LayerOf(w, o)
      off == IF OneSet(w) /\ c.st >= 0 THEN c.st
             ELSE IF l = 0 THEN 0 ELSE (l - 1) * s.step
  IN /\ (c.rep > 0 => (s.abs - off) % c.rep = 0)
     /\ (c.st >= 0 => IF c.si THEN s.abs >= c.st ELSE s.abs > c.st)
     /\ (c.en >= 0 => IF c.ei THEN s.abs <= c.en ELSE s.abs < c.en)

\* nodes a condition without stated nodes speaks about
Deps(c, w) == IF c.d = <<>> THEN DOMAIN w.par ELSE SetOf(c.d)

RECURSIVE Sat(_, _, _, _, _)
Sat(c, o, s, w, e) ==
  LET op == c.op IN
  CASE op = "Default" -> \A d \in w.par[o] : s.use[<<d, o>>] >= 1
    [] op = "Always"  -> TRUE
    [] op = "Never"   -> FALSE
    [] op \in CountOps -> Rel(op, s.cnt[c.ts][c.d[1]], c.n)
    [] op = "AfterNCallsCombined" -> SumOver(s.cnt[c.ts], c.d) >= c.n
    [] op = "EveryNCalls" -> s.use[<<c.d[1], o>>] >= c.n
    [] op = "JustRan" -> c.d[1] \in s.last
    [] op = "AllHaveRun" -> \A d \in Deps(c, w) : s.cnt[c.ts][d] >= 1
    [] op = "WhenFinished" -> e.fin[c.d[1]]
    [] op = "WhenFinishedAny" -> \E d \in Deps(c, w) : e.fin[d]
    [] op = "WhenFinishedAll" -> \A d \in Deps(c, w) : e.fin[d]
    [] op = "While"    -> e.fl[c.f]
    [] op = "WhileNot" -> ~e.fl[c.f]
    [] op = "Threshold" -> Compare(e.pv[c.p], c)
    [] op \in CseOps  -> Rel(op, s.tot[c.ts][CSE], c.n)
    [] op \in PassOps -> Rel(op, s.tot[c.ts][PASS], c.n)
    [] op \in EsuOps  -> Rel(op, s.tot[c.ts][ESU], c.n)
    [] op \in SeqOps  -> Rel(op, s.clk[4], c.n)
    [] op = "AtEnvironmentStateUpdateStart" -> s.tot[ESU][PASS] = 0
    [] op = "AtEnvironmentStateUpdateNStart" ->
         s.tot[ESU][PASS] = 0 /\ s.tot[c.ts][ESU] = c.n
    [] op = "AtEnvironmentSequenceStart" -> s.tot[SEQ][ESU] = 0
    [] op = "AtEnvironmentSequenceNStart" -> s.tot[SEQ][ESU] = 0 /\ s.clk[4] = c.n
    [] op = "All" -> \A k \in DOMAIN c.c : Sat(c.c[k], o, s, w, e)
    [] op = "Any" -> \E k \in DOMAIN c.c : Sat(c.c[k], o, s, w, e)
    [] op = "Not" -> ~Sat(c.c[1], o, s, w, e)
    [] op = "NWhen" -> s.nw[c.id] < c.n /\ Sat(c.c[1], o, s, w, e)
    [] op = "TimeInterval" -> IntervalSat(c, o, s, w)
    [] op = "TimeTermination" -> IF c.inc THEN s.abs >= c.t ELSE s.abs > c.t

(* A user function may raise.  What is to become of an evaluation then: it *)
(* is satisfied (T), it is not (F), or it raises (E).  Members of All and  *)
(* Any whose outcome is settled by others need not be looked at.           *)
RECURSIVE Res(_, _, _, _, _)
Res(c, o, s, w, e) ==
  LET all(xs) == (IF \A x \in DOMAIN xs : "T" \in xs[x] THEN {"T"} ELSE {})
                   \cup (IF \E x \in DOMAIN xs : "F" \in xs[x] THEN {"F"} ELSE {})
                   \cup (IF \E x \in DOMAIN xs : "E" \in xs[x] THEN {"E"} ELSE {})
      any(xs) == (IF \E x \in DOMAIN xs : "T" \in xs[x] THEN {"T"} ELSE {})
                   \cup (IF \A x \in DOMAIN xs : "F" \in xs[x] THEN {"F"} ELSE {})
                   \cup (IF \E x \in DOMAIN xs : "E" \in xs[x] THEN {"E"} ELSE {})
      told(d) == IF 100 + d \in e.boom THEN {"E"} ELSE IF e.fin[d] THEN {"T"} ELSE {"F"}
      plain   == IF Sat(c, o, s, w, e) THEN {"T"} ELSE {"F"}
  IN
  CASE c.op \in {"While", "WhileNot"} -> IF c.f \in e.boom THEN {"E"} ELSE plain
    [] c.op = "Threshold" -> IF -c.p \in e.boom THEN {"E"} ELSE plain
    [] c.op = "WhenFinished" -> told(c.d[1])
    [] c.op = "WhenFinishedAny" -> any([d \in Deps(c, w) |-> told(d)])
    [] c.op = "WhenFinishedAll" -> all([d \in Deps(c, w) |-> told(d)])
    [] c.op = "All" -> all([k \in DOMAIN c.c |-> Res(c.c[k], o, s, w, e)])
    [] c.op = "Any" -> any([k \in DOMAIN c.c |-> Res(c.c[k], o, s, w, e)])
    [] c.op = "Not" -> {CASE x = "T" -> "F" [] x = "F" -> "T" [] OTHER -> x : x \in Res(c.c[1], o, s, w, e)}
    [] c.op = "NWhen" -> IF s.nw[c.id] >= c.n THEN {"F"} ELSE Res(c.c[1], o, s, w, e)
    [] OTHER -> plain

\* Evaluating a condition uses up one satisfaction of every at-most-N wrapper
\* that was satisfied.  Wrappers occur at the top, below other wrappers or
\* below Not; Used(c, ...) is the state after c was evaluated.
RECURSIVE Used(_, _, _, _, _)
Used(c, o, s, w, e) ==
  CASE c.op = "NWhen" ->
         IF s.nw[c.id] >= c.n THEN s
         ELSE LET held == Sat(c.c[1], o, s, w, e)
                  s1   == Used(c.c[1], o, s, w, e)
              IN IF held THEN [s1 EXCEPT !.nw[c.id] = @ + 1] ELSE s1
    [] c.op = "Not" -> Used(c.c[1], o, s, w, e)
    [] OTHER -> s

\* absolute parts of a condition
RECURSIVE IsAbs(_)
IsAbs(c) == \/ c.op \in {"TimeInterval", "TimeTermination"}
            \/ c.op \in {"All", "Any", "Not", "NWhen"} /\ \E k \in DOMAIN c.c : IsAbs(c.c[k])
RECURSIVE Intervals(_)
Intervals(c) ==
  IF c.op = "TimeInterval" THEN (IF c.rep > 0 THEN {c.rep} ELSE {})
  ELSE IF c.op \in {"All", "Any", "Not", "NWhen"}
       THEN UNION {Intervals(c.c[k]) : k \in DOMAIN c.c} ELSE {}
RECURSIVE Fixed(_)
Fixed(c) ==
  IF c.op = "TimeInterval"
  THEN (IF c.si /\ c.st >= 0 THEN {c.st} ELSE {}) \cup (IF c.ei /\ c.en >= 0 THEN {c.en} ELSE {})
  ELSE IF c.op = "TimeTermination" THEN (IF c.inc THEN {c.t} ELSE {})
  ELSE IF c.op \in {"All", "Any", "Not", "NWhen"}
       THEN UNION {Fixed(c.c[k]) : k \in DOMAIN c.c} ELSE {}

------------------------------------------------------------------------------
(* Steps of a run *)

\* node x is added to the current set
AddNode(s, x) ==
  [s EXCEPT !.cnt = [k \in Scales |-> [@[k] EXCEPT ![x] = @ + 1]],
            !.use = [pr \in DOMAIN @ |->
                       IF pr[1] = x THEN (IF pr[2] = x THEN 1 ELSE @[pr] + 1)
                       ELSE IF pr[2] = x THEN 0 ELSE @[pr]]]

(* All ways to fill one consideration set: as long as a remaining node of  *)
(* the layer is satisfied one of them is added; it is left when none is.   *)
RECURSIVE Fill(_, _, _, _)
Fill(front, layer, w, e) ==
  LET ready(r) == {x \in layer \ r.add : Sat(w.cond[x], x, r.s, w, e)}
      done == {r \in front : ready(r) = {}}
      next == UNION {{[add |-> r.add \cup {x},
                       s |-> AddNode(Used(w.cond[x], x, r.s, w, e), x)] : x \in ready(r)}
                     : r \in front}
  IN IF next = {} THEN done ELSE done \cup Fill(next, layer, w, e)
\* with functions that raise: everything that can be added, in any order
RECURSIVE Partial(_, _, _, _)
Partial(front, layer, w, e) ==
  LET next == UNION {{[add |-> r.add \cup {x}, s |-> AddNode(Used(w.cond[x], x, r.s, w, e), x)]
                      : x \in {y \in layer \ r.add : "T" \in Res(w.cond[y], y, r.s, w, e)}} : r \in front}
  IN IF next = {} THEN front ELSE front \cup Partial(next, layer, w, e)
Empty(s) == [add |-> {}, s |-> s]
FillLayer(s, layer, w, e) ==
  IF e.boom = {} THEN Fill({Empty(s)}, layer, w, e)
  ELSE {r \in Partial({Empty(s)}, layer, w, e) : \A x \in layer \ r.add : "F" \in Res(w.cond[x], x, r.s, w, e)}

(* A function raises: the run is given up.  Nothing of the set in progress *)
(* executes; what it used up of an at-most-N wrapper may be gone.          *)
Raised(s) == [k |-> "raise", set |-> {}, s |-> [s EXCEPT !.ctl = Idle]]
RaisedIn(s, layer, w, e) ==
  IF e.boom = {} THEN {}
  ELSE UNION {{Raised([s EXCEPT !.nw = a, !.use = b]) : a \in {s.nw, r.s.nw}, b \in {s.use, r.s.use}}
              : r \in {r \in Partial({Empty(s)}, layer, w, e) :
                         \E x \in layer \ r.add : "E" \in Res(w.cond[x], x, r.s, w, e)}}

Terminated(s, w, e) ==
  Sat(s.ctl.te, 0, s, w, e) \/ Sat(s.ctl.ts, 0, s, w, e)
TermRes(s, w, e) ==
  IF e.boom = {} THEN (IF Terminated(s, w, e) THEN {"T"} ELSE {"F"})
  ELSE Res([op |-> "Any", c |-> <<s.ctl.te, s.ctl.ts>>], 0, s, w, e)

Yielded(s, set, li, chg, kind) ==
  [k |-> "yield", set |-> set,
   s |-> [s EXCEPT !.last = set,
                   !.ctl = [@ EXCEPT !.ph = "susp", !.li = li, !.chg = chg, !.kind = kind]]]

RECURSIVE PassTop(_, _, _), LayerLoop(_, _, _, _, _), PassEnd(_, _, _, _)
PassTop(s, w, e) ==
  LET res == TermRes(s, w, e)
      s1  == IF s.ctl.skip THEN s ELSE Inc(s, ESU)
  IN (IF "T" \in res THEN {[k |-> "end", set |-> {}, s |-> [s1 EXCEPT !.ctl = Idle]]} ELSE {})
     \cup (IF "F" \in res THEN LayerLoop(ResetCnt([s EXCEPT !.ctl.q = <<>>], PASS), 1, FALSE, w, e) ELSE {})
     \cup (IF "E" \in res THEN {Raised(s)} ELSE {})
     \cup (IF {"T", "E"} \subseteq res THEN {Raised(s1)} ELSE {})
LayerLoop(s, li, chg, w, e) ==
  IF li > Len(QueueNow(s, w)) THEN PassEnd(s, chg, w, e)
  ELSE LET res == TermRes(s, w, e)  layer == QueueNow(s, w)[li] IN
       (IF "T" \in res THEN PassEnd(s, chg, w, e) ELSE {})
       \cup (IF "E" \in res THEN {Raised(s)} ELSE {})
       \cup (IF "F" \in res
             THEN RaisedIn(s, layer, w, e)
                    \cup UNION {IF r.add # {} \/ s.absOn
                                THEN {Yielded(r.s, r.add, li, chg \/ r.add # {}, "set")}
                                ELSE LayerLoop(r.s, li + 1, chg, w, e)
                                : r \in FillLayer(s, layer, w, e)}
             ELSE {})
PassEnd(s, chg, w, e) ==
  IF ~chg /\ ~s.absOn
  THEN {Yielded(s, {}, 0, FALSE, "empty")}
  ELSE PassTop(Inc(s, PASS), w, e)

\* a suspended run goes on: the set just handed out is complete
Resume(s, w, e) ==
  IF s.ctl.kind = "empty"
  THEN PassTop(Inc(Inc(s, CSE), PASS), w, e)
  ELSE LayerLoop(ResetCnt(Inc(s, CSE), CSE), s.ctl.li + 1, s.ctl.chg, w, e)

\* absolute time conditions in force for a run
AbsConds(w, te, ts) ==
  {w.cond[x] : x \in {y \in DOMAIN w.cond : IsAbs(w.cond[y])}}
    \cup {c \in {te, ts} : IsAbs(c)}
StepLength(w, te, ts) ==
  LET cs == AbsConds(w, te, ts)
      iv == UNION {Intervals(c) : c \in cs}
              \cup (IF w.mode = "exact" THEN UNION {Fixed(c) : c \in cs} ELSE {})
  IN IF iv \ {0} = {} THEN w.dflt
     ELSE IF w.mode = "exact" THEN GcdSet(iv) ELSE GcdSet(iv) \div Len(Queue(w))

(* Moments at which a run may start: time never goes back, and nothing     *)
(* that could have executed is skipped.  The latest admissible start is    *)
(* the last beginning of a pass at which nothing could have executed yet.  *)
Starts(s, w, step) ==
  LET jumps == \A x \in DOMAIN w.cond : w.cond[x].op = "TimeInterval" /\ w.cond[x].st >= 0
      pl    == step * Len(Queue(w))
      mins  == {w.cond[x].st : x \in DOMAIN w.cond}
      m     == CHOOSE y \in mins : \A z \in mins : y <= z
  IN IF jumps /\ DOMAIN w.cond # {} /\ pl > 0
     THEN {s.abs, MaxOf(s.abs, (m \div pl) * pl)} ELSE {s.abs}

\* a run starts: te, ts are its termination conditions
RunStarts(s, w, te, ts, skip) ==
  LET on   == AbsConds(w, te, ts) # {}
      step == IF on THEN StepLength(w, te, ts) ELSE s.step
      ctl  == [ph |-> "start", li |-> 0, chg |-> FALSE, kind |-> "none",
               te |-> te, ts |-> ts, skip |-> skip, q |-> <<>>]
  IN {ResetCnt([s EXCEPT !.use = [pr \in DOMAIN @ |-> 0],
                         !.absOn = on, !.step = step, !.abs = a, !.ctl = ctl], ESU)
      : a \in IF on THEN Starts(s, w, step) ELSE {s.abs}}

\* one call of next() on a run
NextOf(s, w, e) == IF s.ctl.ph = "start" THEN PassTop(s, w, e) ELSE Resume(s, w, e)

\* a run is abandoned: what was executed stays, the clock does not move
Abandon(s) == [s EXCEPT !.ctl = Idle]
==============================================================================
