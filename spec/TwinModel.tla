----------------------------- MODULE TwinModel -----------------------------
(***************************************************************************)
(* Several schedulers made of the same objects of one caller, who goes on  *)
(* using those objects, in small worlds (read from WORLD_FILE) and for     *)
(* every interleaving of a number of operations.                           *)
(*                                                                         *)
(* Objects (a graph, conditions, termination conditions) lie in a heap;    *)
(* 1 to 3 are the caller's.  A scheduler holds addresses, and everything   *)
(* it does reads and writes what is there.  Making a scheduler copies what *)
(* is handed in (COPIES; without, TLC finds the interference).             *)
(*                                                                         *)
(* Apart says that what a scheduler is and does is what its own operations *)
(* make of the objects as they were when it was made: the heap cannot be   *)
(* told from separate worlds.  Every sequence of operations is printed, to *)
(* be replayed.                                                            *)
(***************************************************************************)
EXTENDS SchedCore, Json, IOUtils
CONSTANT COPIES

Worlds == JsonDeserialize(IOEnv.WORLD_FILE)
VARIABLES W, heap, half, log
vars == <<W, heap, half, log>>
V == Worlds[W]
Halves(v) == 1..v.k

E0 == [fl |-> <<>>, pv |-> <<>>, fin |-> <<>>, boom |-> {}]
MkW(v, par, cond) ==
  [par |-> par, lay |-> Layers(par), bad |-> Unorderable(par), cond |-> cond, mode |-> v.mode, dflt |-> v.dflt]
ParOfWorld(v) == [x \in DOMAIN v.graph |-> SetOf(v.graph[x])]
Toggle(par, a, b) == [par EXCEPT ![b] = IF a \in @ THEN @ \ {a} ELSE @ \cup {a}]

(* the caller's operation on the objects: an edge comes or goes, a node is  *)
(* not to execute any more, runs end after one pass                         *)
MutPar(p, o) == Toggle(p, o[3], o[4])
MutCond(c, o) == [c EXCEPT ![o[3]] = [op |-> "Never"]]
Mutated == [te |-> [op |-> "AfterNPasses", n |-> 1, ts |-> ESU], ts |-> [op |-> "Never"]]

(* one operation of a scheduler with graph p, conditions c, termination     *)
(* conditions m, the ones it was made with d, and possible states s         *)
Step(S, w, m) ==
  UNION {IF s.ctl.ph = "idle"
         THEN UNION {{o.s : o \in NextOf(b, w, E0)} : b \in RunStarts(s, w, m.te, m.ts, FALSE)}
         ELSE {o.s : o \in NextOf(s, w, E0)} : s \in S}
Able(v, o, S) == o[1] \in {"co", "tm", "rt"} => \A s \in S : s.ctl.ph = "idle"
Eff(v, o, r) ==
  CASE o[1] = "st" -> [r EXCEPT !.s = Step(@, MkW(v, r.p, r.c), r.m)]
    [] o[1] = "dr" -> [r EXCEPT !.s = {Abandon(s) : s \in @}]
    [] o[1] = "sq" -> [r EXCEPT !.s = {IF s.ctl.ph = "idle" THEN EndSequence(s) ELSE EndSequence(Abandon(s)) : s \in @}]
    [] o[1] = "ed" -> LET q == Toggle(r.p, o[3], o[4])  w == MkW(v, q, r.c) IN
                      [r EXCEPT !.p = q, !.s = UNION {Overtaken(s, w) : s \in @}]
    [] o[1] = "co" -> [r EXCEPT !.c[o[3]] = v.alts[o[4]]]
    [] o[1] = "tm" -> [r EXCEPT !.m.te = v.terms[o[3]]]
    [] o[1] = "rt" -> [r EXCEPT !.m = r.d]

Fresh(v) == {InitCtx(Len(v.graph), {<<q[1], q[2]>> : q \in SetOf(v.pairs)}, {})}

------------------------------------------------------------------------------
Addr(w, j) == IF COPIES THEN 3 * w + j ELSE j
Nobody == [g |-> 0, c |-> 0, t |-> 0, d |-> <<>>, s |-> {}, on |-> FALSE, was |-> FALSE]

Init ==
  \E k \in DOMAIN Worlds :
    LET v == Worlds[k] IN
    /\ W = k
    /\ heap = [a \in 1..3 * (v.k + 1) |->
                 CASE a = 1 -> ParOfWorld(v) [] a = 2 -> v.conds [] a = 3 -> [te |-> v.te, ts |-> v.ts]
                   [] OTHER -> <<>>]
    /\ half = [w \in Halves(v) |-> Nobody]
    /\ log = <<>>

Make(w) ==
  /\ ~half[w].was
  /\ heap' = IF COPIES THEN [a \in DOMAIN heap |-> IF a \in {3 * w + 1, 3 * w + 2, 3 * w + 3} THEN heap[a - 3 * w] ELSE heap[a]]
             ELSE heap
  /\ half' = [half EXCEPT ![w] = [g |-> Addr(w, 1), c |-> Addr(w, 2), t |-> Addr(w, 3), d |-> heap[3],
                                  s |-> Fresh(V), on |-> TRUE, was |-> TRUE]]
\* a scheduler is forgotten
Kill(w) ==
  /\ half[w].on
  /\ heap' = IF COPIES THEN [heap EXCEPT ![3 * w + 1] = <<>>, ![3 * w + 2] = <<>>, ![3 * w + 3] = <<>>] ELSE heap
  /\ half' = [half EXCEPT ![w] = [Nobody EXCEPT !.was = TRUE]]
Mutate(o) ==
  /\ \E w \in DOMAIN half : half[w].was
  /\ heap' = [heap EXCEPT ![1] = MutPar(@, o), ![2] = MutCond(@, o), ![3] = Mutated]
  /\ UNCHANGED half
Own(w, o) ==
  LET q == half[w]
      r == Eff(V, o, [p |-> heap[q.g], c |-> heap[q.c], m |-> heap[q.t], d |-> q.d, s |-> q.s])
  IN /\ q.on
     /\ Able(V, o, q.s)
     /\ heap' = [heap EXCEPT ![q.g] = r.p, ![q.c] = r.c, ![q.t] = r.m]
     /\ half' = [half EXCEPT ![w].s = r.s]

User ==
  /\ Len(log) < V.depth
  /\ \E k \in DOMAIN V.ops :
       LET o == V.ops[k] IN
       /\ log' = Append(log, o)
       /\ CASE o[1] = "make" -> Make(o[2])
            [] o[1] = "kill" -> Kill(o[2])
            [] o[1] = "mu" -> Mutate(o)
            [] OTHER -> Own(o[2], o)
Report ==
  /\ Len(log) = V.depth
  /\ PrintT(<<"HIST", W, ToJson(log)>>)
  /\ UNCHANGED <<heap, half>>
  /\ log' = Append(log, <<"end">>)
Next == (User \/ Report) /\ W' = W
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
\* the caller's objects after the first n operations
RECURSIVE Given(_, _)
Given(v, l) ==
  IF l = <<>> THEN <<ParOfWorld(v), v.conds, [te |-> v.te, ts |-> v.ts]>>
  ELSE LET g == Given(v, SubSeq(l, 1, Len(l) - 1))  o == l[Len(l)] IN
       IF o[1] = "mu" THEN <<MutPar(g[1], o), MutCond(g[2], o), Mutated>> ELSE g
\* a scheduler alone in the world, made of what it was given
RECURSIVE Alone(_, _, _)
Alone(v, w, l) ==
  IF l = <<>> THEN [p |-> <<>>, c |-> <<>>, m |-> <<>>, d |-> <<>>, s |-> {}]
  ELSE LET b == SubSeq(l, 1, Len(l) - 1)  o == l[Len(l)] IN
       IF o[1] \in {"end", "mu"} \/ o[2] # w THEN Alone(v, w, b)
       ELSE IF o[1] = "make"
            THEN LET g == Given(v, b) IN [p |-> g[1], c |-> g[2], m |-> g[3], d |-> g[3], s |-> Fresh(v)]
       ELSE Eff(v, o, Alone(v, w, b))

Apart ==
  \A w \in DOMAIN half : half[w].on =>
    LET q == half[w]  r == Alone(V, w, log) IN
    /\ heap[q.g] = r.p /\ heap[q.c] = r.c /\ heap[q.t] = r.m /\ q.d = r.d /\ q.s = r.s
Untouched == LET g == Given(V, log) IN heap[1] = g[1] /\ heap[2] = g[2] /\ heap[3] = g[3]
\* equal programs on equal objects come to the same
Program(w) == SelectSeq(log, LAMBDA o : Len(o) > 1 /\ o[1] # "mu" /\ o[2] = w)
Same(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : [a[k] EXCEPT ![2] = 0] = [b[k] EXCEPT ![2] = 0]
Unmutated == \A k \in DOMAIN log : log[k][1] # "mu"
Equal ==
  \A u, w \in DOMAIN half :
    (u < w /\ half[u].on /\ half[w].on /\ Unmutated /\ Same(Program(u), Program(w))) =>
      half[u].s = half[w].s /\ heap[half[u].g] = heap[half[w].g]
=============================================================================
