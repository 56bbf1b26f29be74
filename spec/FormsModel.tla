------------------------------ MODULE FormsModel ------------------------------
(***************************************************************************)
(* All small forms, and what relates their verdicts.  They are printed to  *)
(* be given to the implementation.                                         *)
(***************************************************************************)
EXTENDS Forms, Json

CONSTANT N
VARIABLE f
Seqs(S, m) == UNION {[1..k -> S] : k \in 0..m}
Distinct(q) == \A a, b \in DOMAIN q : a # b => q[a] # q[b]
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
DSeqs(S, m) == {q \in Seqs(S, m) : Distinct(q)}

Quantities == {[num |-> n, den |-> 1, u |-> u] : n \in {0, 1, 2}, u \in {1000, 1000000}}
              \cup {[num |-> 3, den |-> 2, u |-> 1000], [num |-> 1500, den |-> 1, u |-> 1], [num |-> 1999, den |-> 1, u |-> 1],
                    [num |-> 2000, den |-> 1, u |-> 1000], [num |-> 9, den |-> 1, u |-> 1]}
Intervals == {[f |-> "interval", rep |-> r, st |-> a, en |-> b] :
                r \in Opt({[num |-> 2, den |-> 1, u |-> 1000]}), a \in Opt(Quantities), b \in Opt(Quantities)}
Thresholds == {[f |-> "threshold", has |-> h, val |-> v, cmp |-> c, atol |-> a, rtol |-> r] :
                h \in BOOLEAN, v \in {"none", "ok", "no"}, c \in Comparators \cup {"=", "=<", "<>", "", "none"},
                a \in BOOLEAN, r \in BOOLEAN}
Classes == Single \cup {"BeforeNodes", "AfterNodes"}
NodeForms == {x \in [f : {"nodes"}, cls : Classes, nodes : {q \in Seqs(0..N, 3) : Distinct(q)},
                     ss : Opt(DSeqs(1..N, 2) \ {<<>>}), sr : Opt({<<1>>, <<2, 1>>})] :
                /\ (x.cls = "WithNode" => Len(x.nodes) = 1 /\ x.ss = <<>>)
                /\ (x.cls \in {"AddEdgeTo", "RemoveEdgeFrom"} => x.ss = <<>> /\ x.sr = <<>>)
                /\ (0 \in Rng(x.nodes) \/ x.nodes = <<>> => x.ss = <<>> /\ x.sr = <<>>)}
Owners == {x \in [f : {"owner"}, cls : Classes, nodes : DSeqs(1..N, 2) \ {<<>>}, o : 1..N] :
             x.cls \in Single => Len(x.nodes) = 1}
Dags == {g \in [1..N -> SUBSET (1..N)] : \A x \in 1..N : \A s \in g[x] : s < x}
AsSeq(S) == CHOOSE q \in [1..Cardinality(S) -> S] : Rng(q) = S
Applies == {x \in [f : {"apply"}, cls : Classes, nodes : DSeqs(1..N, 2) \ {<<>>}, o : 0..N, via : {"modify"},
                   in : {AsSeq(S) : S \in SUBSET (1..N) \ {{}}}, g : {[y \in 1..N |-> AsSeq(g[y])] : g \in Dags}] :
              /\ x.cls \in Single => Len(x.nodes) = 1
              /\ x.o \notin Rng(x.nodes)
              /\ \A y \in 1..N : Rng(x.g[y]) \subseteq Rng(x.in) /\ (y \notin Rng(x.in) => x.g[y] = <<>>)}
Customs == [f : {"custom"}, call : BOOLEAN, self : {"none", "first", "later"}, own : BOOLEAN]
Graphs == [f : {"graph"}, kind : {"none", "dict", "graph", "multigraph", "digraph", "multidigraph"}]
Combineds == [f : {"combined"}, n : Opt(0..3), got : {0, 2}]
Finisheds == {x \in [f : {"finished"}, cls : {"One", "Any", "All"}, deps : Seqs({"T", "F", "X"}, 3) \ {<<>>}] :
                x.cls = "One" => Len(x.deps) = 1}
Owns == {x \in [f : {"own"}, cls : {"JustRan", "AfterNCalls", "EveryNCalls", "WhenFinished", "AllHaveRun", "WhenFinishedAny"},
                deps : DSeqs(1..N, 2) \ {<<>>}, o : 1..N] :
           x.cls \in {"JustRan", "AfterNCalls", "EveryNCalls", "WhenFinished"} => Len(x.deps) = 1}

Init == /\ \/ f \in Intervals \/ f \in Thresholds \/ f \in NodeForms \/ f \in Owners \/ f \in Applies \/ f \in Customs
           \/ f \in Graphs \/ f \in Combineds \/ f \in Finisheds \/ f \in Owns
        /\ PrintT(<<"FORM", ToJson(f)>>)
Next == UNCHANGED f
Spec == Init /\ [][Next]_f

\* how a time is stated does not matter
Finer(q) == [num |-> q.num * 1000, den |-> q.den, u |-> q.u \div 1000]
Units == f.f = "interval" =>
  \A key \in {"st", "en"} :
    Given(f[key]) /\ f[key][1].u > 1 /\ f[key][1].num < 3 => IntervalOk([f EXCEPT ![key] = <<Finer(f[key][1])>>]) = IntervalOk(f)
\* a bound moved outwards never makes an interval ill formed
Outwards == f.f = "interval" /\ Given(f.en) /\ IntervalOk(f) => IntervalOk([f EXCEPT !.en[1].num = @ + 1])
\* the order of the nodes does not matter
Reverse(q) == [k \in DOMAIN q |-> q[Len(q) + 1 - k]]
OrderFree == f.f \in {"nodes", "owner", "apply"} => WellFormed([f EXCEPT !.nodes = Reverse(@)]) = WellFormed(f)
\* what can be given an owner can be applied to the graph of all nodes
Applicable == f.f = "owner" /\ OwnerOk(f) => ApplyOk([in |-> [k \in 1..N |-> k], nodes |-> f.nodes, o |-> f.o])
\* more nodes in the graph never hurt
Grows == f.f = "apply" /\ ApplyOk(f) => ApplyOk([f EXCEPT !.in = [k \in 1..N |-> k]])
\* suspicious is not ill formed
Legal == f.f \notin {"threshold", "apply"} /\ Warned(f) => WellFormed(f)
\* a decision that is known needs no one else
Decided == f.f = "finished" /\ FinishedOk(f) /\ Deciding(f) \in Rng(f.deps) => FinishedIs(f) = (f.cls = "Any")
=============================================================================
