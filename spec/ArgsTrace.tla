------------------------------ MODULE ArgsTrace ------------------------------
(***************************************************************************)
(* Monitor: user functions in conditions were called as Args says.         *)
(***************************************************************************)
EXTENDS Args, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, bad
Init == t \in DOMAIN Traces /\ i = 1 /\ bad = {}

Same(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]
Broken(ev) ==
  IF ev.e = "fail" THEN {ev.c}
  ELSE LET ps == ev.ps
      args == ev.A \o ev.E
      kw == Offer(ev.K, ev.X)
  IN IF Impossible(ps, args, kw) THEN {}
     ELSE IF ev.r # "ok" THEN {"EXC"}
     ELSE (IF ~Same(ev.bound, Bound(ps, args, kw)) THEN {"VALUES"} ELSE {})
          \cup (IF ev.star # Star(ps, args, kw) THEN {"POSITIONAL"} ELSE {})
          \cup (IF ~Same(ev.kws, Extra(ps, kw)) THEN {"KEYWORDS"} ELSE {})
          \cup (IF ev.ret THEN {} ELSE {"RESULT"})
          \cup (IF ev.every THEN {} ELSE {"EVERY"})

Next ==
  LET tr == Traces[t]  ev == tr.ev[i] IN
  /\ i <= Len(tr.ev)
  /\ LET b == Broken(ev) IN
     /\ bad' = bad \cup b
     /\ \A c \in b \ bad : PrintT(<<"VIOL", tr.id, i, c>>)
  /\ i = Len(tr.ev) => PrintT(<<"DONE", tr.id, i>>)
  /\ i' = i + 1
  /\ t' = t
Spec == Init /\ [][Next]_<<t, i, bad>>
=============================================================================
