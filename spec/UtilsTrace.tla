------------------------------ MODULE UtilsTrace ------------------------------
(***************************************************************************)
(* Monitor: helpers return what Utils says for the dictionary as it is at  *)
(* the time of the call, leave it alone, and results keep their value.     *)
(***************************************************************************)
EXTENDS Utils, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, ds, kept, bad
\* ds: slot -> dictionary; kept: number of the call -> its result, until spoiled
Init == t \in DOMAIN Traces /\ i = 1 /\ ds = <<>> /\ kept = <<>> /\ bad = {}

Rng(q) == {q[k] : k \in DOMAIN q}
\* [[node, [senders]]] as read from a recording
Rel(pairs) == [x \in {p[1] : p \in Rng(pairs)} |-> Rng((CHOOSE p \in Rng(pairs) : p[1] = x)[2])]
Dict(pairs) == [keys |-> {p[1] : p \in Rng(pairs)}, deps |-> Rel(pairs)]
\* one entry per node, no sender twice
Plain(pairs) == /\ \A a, b \in DOMAIN pairs : a # b => pairs[a][1] # pairs[b][1]
                /\ \A a \in DOMAIN pairs : Len(pairs[a][2]) = Cardinality(Rng(pairs[a][2]))
\* a cycle as it starts from its smallest node
Turn(c) == LET m == CHOOSE k \in DOMAIN c : \A j \in DOMAIN c : c[k] <= c[j]
           IN [k \in DOMAIN c |-> c[((m + k - 2) % Len(c)) + 1]]

Ok(ev, D) ==
  LET v == ev.v IN
  CASE ev.fn = "receivers" -> Plain(v) /\ Rel(v) = DictReceivers(D)
    [] ev.fn = "ancestors" -> Plain(v) /\ Rel(v) = DictAncestors(D)
    [] ev.fn = "descendants" -> Plain(v) /\ Rel(v) = DictDescendants(D)
    [] ev.fn = "clone" -> Plain(v) /\ Rel(v) = Clone(D)
    [] ev.fn = "cycles" -> /\ \A k \in DOMAIN v : Len(v[k]) > 0
                           /\ {Turn(v[k]) : k \in DOMAIN v} = DictCycles(D)
                           /\ Len(v) = Cardinality(DictCycles(D))
    [] ev.fn \in {"di", "disub"} -> /\ Rng(v[1]) = DiNodes(D) /\ Len(v[1]) = Cardinality(DiNodes(D))
                       /\ {<<e[1], e[2]>> : e \in Rng(v[2])} = DiEdges(D) /\ Len(v[2]) = Cardinality(DiEdges(D))
    [] ev.fn = "back" -> Plain(v) /\ Rel(v) = Back(DiNodes(D), DiEdges(D), TRUE)
    [] ev.fn = "backless" -> Plain(v) /\ Rel(v) = Back(DiNodes(D), DiEdges(D), FALSE)
    [] ev.fn \in {"sched", "schedx"} ->
         \* graph, nodes, queue, sets of a run of two passes
         LET G == Full(D) IN
         IF Unorderable(G) THEN TRUE
         ELSE /\ Rel(v[1]) = G
              /\ Rng(v[2]) = DOMAIN G /\ Len(v[2]) = Cardinality(DOMAIN G)
              /\ [k \in DOMAIN v[3] |-> Rng(v[3][k])] = Layers(G)
              /\ DOMAIN G # {} => [k \in DOMAIN v[4] |-> Rng(v[4][k])] = Layers(G) \o Layers(G)
    [] OTHER -> FALSE
Cyclic2(D) == Unorderable(Full(D))

\* [ds, kept, broken]
Step(ev) ==
  CASE ev.e = "new" -> [ds |-> (ev.d :> Dict(ev.v)) @@ ds, kept |-> kept, broken |-> {}]
    [] ev.e = "mut" ->
         LET D == ds[ev.d]
             D2 == CASE ev.how = "add" -> AddDep(D, ev.x, ev.s)
                     [] ev.how = "drop" -> DropDep(D, ev.x, ev.s)
                     [] ev.how = "addkey" -> AddKey(D, ev.x)
                     [] OTHER -> DropKey(D, ev.x)
         IN [ds |-> [ds EXCEPT ![ev.d] = D2], kept |-> kept, broken |-> {}]
    [] ev.e = "call" ->
         LET D == ds[ev.d]
             cyc == ev.fn \in {"sched", "schedx"} /\ Cyclic2(D) IN
         [ds |-> ds,
          kept |-> IF ev.r = "ok" THEN (ev.n :> ev.v) @@ kept ELSE kept,
          broken |-> (IF ev.r = "ok" THEN IF cyc THEN {"CYCLIC"} ELSE IF Ok(ev, D) THEN {} ELSE {"RESULT:" \o ev.fn}
                      ELSE IF cyc /\ ev.r = "err" THEN {} ELSE {"EXC"})
                     \cup (IF Dict(ev.after) = D THEN {} ELSE {"INPUT"})]
    \* the caller changes a result
    [] ev.e = "spoil" -> [ds |-> ds, kept |-> [n \in DOMAIN kept \ {ev.n} |-> kept[n]], broken |-> {}]
    \* the earlier results, looked at again
    [] ev.e = "look" ->
         [ds |-> ds, kept |-> kept,
          broken |-> IF \A k \in DOMAIN ev.res : ev.res[k][1] \in DOMAIN kept => kept[ev.res[k][1]] = ev.res[k][2]
                     THEN {} ELSE {"SHARED"}]
    [] OTHER -> [ds |-> ds, kept |-> kept, broken |-> {ev.c}]

Next ==
  LET tr == Traces[t]  ev == tr.ev[i]  st == Step(ev) IN
  /\ i <= Len(tr.ev)
  /\ bad' = bad \cup st.broken
  /\ \A c \in st.broken \ bad : PrintT(<<"VIOL", tr.id, i, c>>)
  /\ i = Len(tr.ev) => PrintT(<<"DONE", tr.id, i>>)
  /\ ds' = st.ds /\ kept' = st.kept
  /\ i' = i + 1
  /\ t' = t
Spec == Init /\ [][Next]_<<t, i, ds, kept, bad>>
=============================================================================
