-------------------------------- MODULE Forms --------------------------------
(***************************************************************************)
(* Which specifications of conditions and schedulers are well formed, and  *)
(* which well-formed ones are suspicious.                                  *)
(*                                                                         *)
(* A form is a record whose field f names what is made or done:            *)
(*  interval   rep, st, en: <<>> or <<[num, den, u]>>, u the microseconds   *)
(*             of the unit, den one of 1, 2, 4, 5, 10                      *)
(*  threshold  has: the dependency has the attribute, val: "none" (no      *)
(*             validator), "ok" or "no", cmp, atol, rtol: given and not 0  *)
(*  nodes      cls, nodes (0: not hashable), ss, sr: <<>> or <<keys>> of a  *)
(*             dictionary of subject operations                            *)
(*  owner      cls, nodes, o: assign the owner                             *)
(*  apply      cls, nodes, o (0: none), g: senders of the nodes in, or <<>> *)
(*             per node out of the graph, in: nodes of the graph           *)
(*  custom     call: callable, self: "none", "first", "later", own: has an  *)
(*             owner when it is applied                                    *)
(*  graph      kind                                                        *)
(*  alone      cls: evaluated without a scheduler                          *)
(*  combined   n: <<>> (left out) or <<number>>, got: executions so far     *)
(*  finished   cls: One, Any, All; deps: "T", "F" or "X" (cannot say)      *)
(*  own        cls, deps, o: assign the owner of a dependent condition     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(q) == {q[k] : k \in DOMAIN q}

\* in twentieths of a microsecond
Twentieths(q) == q.num * q.u * (20 \div q.den)
Given(x) == Len(x) > 0
IntervalOk(f) ==
  /\ Given(f.rep) \/ Given(f.st) \/ Given(f.en)
  /\ Given(f.st) /\ Given(f.en) => Twentieths(f.st[1]) <= Twentieths(f.en[1])

Inequality == {"<", "<=", ">", ">="}
Comparators == Inequality \cup {"==", "!="}
ThresholdOk(f) ==
  /\ f.cmp \in Comparators
  /\ IF f.val = "none" THEN f.has ELSE f.val = "ok"

Single == {"BeforeNode", "AfterNode", "AddEdgeTo", "RemoveEdgeFrom", "WithNode"}
NodesOk(f) ==
  /\ IF f.cls \in Single THEN Len(f.nodes) = 1 ELSE Len(f.nodes) >= 1
  /\ 0 \notin Rng(f.nodes)
  /\ \A d \in Rng(f.ss) \cup Rng(f.sr) : Rng(d) = Rng(f.nodes)

OwnerOk(f) == f.o \notin Rng(f.nodes)
ApplyOk(f) == f.o # 0 /\ {f.o} \cup Rng(f.nodes) \subseteq Rng(f.in)

\* subject nodes that already are where the condition puts them
Placed(f) ==
  CASE f.cls \in {"BeforeNode", "BeforeNodes"} -> {x \in Rng(f.nodes) : f.o \in Rng(f.g[x])}
    [] f.cls \in {"AfterNode", "AfterNodes"} -> {x \in Rng(f.nodes) : x \in Rng(f.g[f.o])}
    [] f.cls = "WithNode" -> {x \in Rng(f.nodes) : Rng(f.g[x]) = Rng(f.g[f.o])}
    [] f.cls = "RemoveEdgeFrom" -> {x \in Rng(f.nodes) : x \notin Rng(f.g[f.o])}
    [] OTHER -> {}

Independent == {"Always", "Never", "While", "WhileNot", "All", "Any", "Not"}

\* every one that is asked can say, or the answer is known without
FinishedOk(f) == "X" \notin Rng(f.deps)
Deciding(f) == CASE f.cls = "Any" -> "T" [] f.cls = "All" -> "F" [] OTHER -> "-"
FinishedFree(f) == "X" \in Rng(f.deps) /\ Deciding(f) \in Rng(f.deps)
FinishedIs(f) == CASE f.cls = "Any" -> "T" \in Rng(f.deps) [] OTHER -> "F" \notin Rng(f.deps)

WellFormed(f) ==
  CASE f.f = "interval" -> IntervalOk(f)
    [] f.f = "threshold" -> ThresholdOk(f)
    [] f.f = "nodes" -> NodesOk(f)
    [] f.f = "owner" -> OwnerOk(f)
    [] f.f = "apply" -> ApplyOk(f)
    [] f.f = "custom" -> f.call /\ f.self # "later" /\ f.own
    [] f.f = "graph" -> f.kind \in {"dict", "digraph", "multidigraph"}
    [] f.f = "alone" -> f.cls \in Independent
    [] f.f = "combined" -> Given(f.n)
    [] f.f = "finished" -> FinishedOk(f)
    [] OTHER -> TRUE

\* which errors: the library's own unless the user's function raises
Loose == {"JustRan", "TimeInterval", "TimeTermination", "AllHaveRun()", "WhenFinishedAny()", "WhenFinishedAll()"}
Errors(f) ==
  IF f.f = "threshold" /\ f.val = "no" THEN IF f.cmp \in Comparators THEN {"own"} ELSE {"own", "lib"}
  ELSE IF f.f = "alone" /\ f.cls \in Loose THEN {"lib", "exc"} ELSE {"lib"}

\* the truth value an evaluation must have, if it has one
Answer(f) == CASE f.f = "finished" -> FinishedIs(f)
               [] f.f = "combined" -> f.got >= f.n[1]
               [] OTHER -> TRUE

Warned(f) ==
  CASE f.f = "threshold" -> (f.atol \/ f.rtol) /\ f.cmp \in Inequality
    [] f.f = "apply" -> Placed(f) # {}
    [] f.f = "own" -> f.o \in Rng(f.deps)
    [] OTHER -> FALSE
\* whether that is warned about may be left open
WarnFree(f) ==
  \/ f.f = "apply" /\ f.via = "sched"     \* cycles are warned about there, too
  \/ f.f = "own" /\ f.o \in Rng(f.deps) /\ f.o # f.deps[1]
=============================================================================
