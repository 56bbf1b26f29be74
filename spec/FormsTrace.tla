------------------------------ MODULE FormsTrace ------------------------------
(***************************************************************************)
(* Monitor: ill-formed specifications were refused, others accepted.       *)
(*  r: "ok", "lib" (an error of the library), "own" (the user's own error),*)
(*     "exc" (any other error); warn: a warning was given; ans: truth      *)
(*     value; same: objects given and the state before a refusal unchanged *)
(***************************************************************************)
EXTENDS Forms, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, bad
Init == t \in DOMAIN Traces /\ i = 1 /\ bad = {}

Broken(ev) ==
  IF ev.e = "fail" THEN {ev.c}
  ELSE LET f == ev.form IN
    (IF f.f = "finished" /\ FinishedFree(f)
     THEN IF ev.r = "lib" \/ (ev.r = "ok" /\ ev.ans = FinishedIs(f)) THEN {} ELSE {"FREE"}
     ELSE IF WellFormed(f)
     THEN (IF ev.r # "ok" THEN {"REFUSED"} ELSE {})
          \cup (IF ev.r = "ok" /\ ev.ans # Answer(f) THEN {"ANSWER"} ELSE {})
          \cup (IF ev.r = "ok" /\ ~WarnFree(f) /\ ev.warn # Warned(f)
                THEN {IF ev.warn THEN "WARNED" ELSE "NOWARN"} ELSE {})
     ELSE IF ev.r = "ok" THEN {"ACCEPTED"} ELSE IF ev.r \notin Errors(f) THEN {"ERROR"} ELSE {})
    \cup (IF ev.same THEN {} ELSE {"CHANGED"})

Next ==
  LET tr == Traces[t]  ev == tr.ev[i] IN
  /\ i <= Len(tr.ev)
  /\ LET b == Broken(ev) IN
     /\ bad' = bad \cup b
     /\ \A c \in b \ bad : PrintT(<<"VIOL", tr.id, i, c>>)
  /\ i = Len(tr.ev) => PrintT(<<"DONE", tr.id, i>>)
  /\ i' = i + 1
  /\ t' = t
Spec == Init /\ [][Next]_<<t, i, bad>>
=============================================================================
