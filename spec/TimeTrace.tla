------------------------------ MODULE TimeTrace ------------------------------
(***************************************************************************)
(* Monitor: what time histories and clocks answer is what TimeTree says.   *)
(***************************************************************************)
EXTENDS TimeTree, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, h, bad
Init == t \in DOMAIN Traces /\ i = 1 /\ h = FreshTime /\ bad = {}

Rng(q) == {q[k] : k \in DOMAIN q}
Given(ps) == [k \in {p[1] : p \in Rng(ps)} |-> (CHOOSE p \in Rng(ps) : p[1] = k)[2]]
Vec(v) == [k \in Scales |-> v[k + 1]]

\* clauses broken by event ev in history h
Broken(tr, ev) ==
  CASE ev.e = "inc" -> IF ev.r = "ok" THEN {} ELSE {"EXC"}
    [] ev.e = "q" ->
         LET a == Query(h, tr.top, tr.depth, ev.q, Given(ev.B))
             x == IF tr.timed THEN a ELSE -1
         IN (IF ev.r = "exc" THEN {"EXC"}
             ELSE IF ev.r = "err" THEN (IF x = -1 THEN {} ELSE {"REFUSED"})
             ELSE IF x = -1 THEN {"ANSWERED"} ELSE IF ev.v # x THEN {"COUNT"} ELSE {})
            \cup (IF ev.inp THEN {} ELSE {"INPUT"})
    [] ev.e = "obs" ->
         LET prev == IF h.log = <<>> THEN <<>> ELSE Vec(ev.prev) IN
         (IF Vec(ev.now) # h.now THEN {"NOW"} ELSE {})
         \cup (IF ev.hasprev # (h.log # <<>>) THEN {"PREV"}
               ELSE IF h.log # <<>> /\ prev # h.log[Len(h.log)].at THEN {"PREV"} ELSE {})
         \cup (IF ev.same THEN {} ELSE {"SIMPLE"})
    [] ev.e = "fail" -> {ev.c}

Next ==
  LET tr == Traces[t]  ev == tr.ev[i] IN
  /\ i <= Len(tr.ev)
  /\ LET b == Broken(tr, ev) IN
     /\ bad' = bad \cup b
     /\ \A c \in b \ bad : PrintT(<<"VIOL", tr.id, i, c>>)
  /\ h' = IF ev.e = "inc" THEN Inc(h, ev.k) ELSE h
  /\ i = Len(tr.ev) => PrintT(<<"DONE", tr.id, i>>)
  /\ i' = i + 1
  /\ t' = t
Spec == Init /\ [][Next]_<<t, i, h, bad>>
=============================================================================
