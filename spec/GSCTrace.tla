------------------------------ MODULE GSCTrace ------------------------------
(***************************************************************************)
(* Monitor: every recorded application of a graph structure condition has  *)
(* a result that GSC allows.                                               *)
(***************************************************************************)
EXTENDS GSC, Json, IOUtils, Sequences

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i

ParOf(g) == [x \in DOMAIN g |-> Rng(g[x])]

ModClauses(ev) ==
  LET base == ParOf(ev.g)  res == ParOf(ev.res)  c == ev.c IN
  (IF ev.inp THEN {} ELSE {"INPUT"})
  \cup (IF ev.own THEN {} ELSE {"SHARED"})
  \cup (IF Refused(c, base)
        THEN (IF ev.r = "err" THEN {}
              ELSE IF ev.r = "ok" THEN {IF Missing(c, base) THEN "MISSING" ELSE "CONFLICT"} ELSE {"EXC"})
        ELSE IF ev.r = "err" THEN {"REFUSED"}
        ELSE IF ev.r # "ok" THEN {"EXC"}
        ELSE IF ~ev.keys THEN {"NODES"}
        ELSE ResultClauses(c, base, res))

OpClauses(ev) ==
  (IF ev.r = "ok" /\ Rng(ev.res) = Operation(ev.op, Rng(ev.S), Rng(ev.C)) THEN {} ELSE {"OPERATION"})
  \cup (IF ev.inp THEN {} ELSE {"INPUT"})

\* a user-defined function: ev.want is what it returned
CustomClauses(ev) ==
  (IF ev.inp THEN {} ELSE {"INPUT"})
  \cup (IF ev.r = "ok" /\ ev.keys /\ ParOf(ev.res) = ParOf(ev.want) THEN {} ELSE {"CUSTOM"})

Clauses(ev) ==
  CASE ev.e = "mod" -> ModClauses(ev)
    [] ev.e = "op" -> OpClauses(ev)
    [] ev.e = "custom" -> CustomClauses(ev)
    [] ev.e = "check" -> IF ev.v THEN {} ELSE {ev.c}
    [] ev.e = "fail" -> {ev.c}

Init == t \in DOMAIN Traces /\ i = 1
Next ==
  LET tr == Traces[t] IN
  /\ i <= Len(tr.ev)
  /\ \A k \in Clauses(tr.ev[i]) : PrintT(<<"VIOL", tr.id, i, k>>)
  /\ i = Len(tr.ev) => PrintT(<<"DONE", tr.id, i>>)
  /\ i' = i + 1
  /\ t' = t
Spec == Init /\ [][Next]_<<t, i>>
=============================================================================
