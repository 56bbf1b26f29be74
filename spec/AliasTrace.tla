------------------------------ MODULE AliasTrace ------------------------------
(***************************************************************************)
(* Monitor: the names that exist after setting and removing aliases are    *)
(* those of Alias.                                                         *)
(***************************************************************************)
EXTENDS Alias, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, al, bad
Init == t \in DOMAIN Traces /\ i = 1 /\ al = None /\ bad = {}

Same(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]
ScaleNames == <<"CONSIDERATION_SET_EXECUTION", "PASS", "ENVIRONMENT_STATE_UPDATE", "ENVIRONMENT_SEQUENCE", "LIFE">>

\* [after, clauses broken by the answer]
Step(T, ev) ==
  CASE ev.e = "set" ->
         LET s == Target(al, ScaleNames, ev.kind, ev.target) IN
         IF CanSet(T, al, s, ev.name)
         THEN [al |-> Set(al, s, ev.name), bad |-> IF ev.r = "ok" THEN {} ELSE {"EXC"}]
         ELSE [al |-> al, bad |-> IF ev.r = "err" THEN {} ELSE {"ACCEPTED"}]
    [] ev.e = "remove" -> [al |-> Remove(al, ev.name), bad |-> IF ev.r = "ok" THEN {} ELSE {"EXC"}]
    [] OTHER -> [al |-> al, bad |-> {ev.c}]

Seen(T, a, o) ==
  LET at == Attrs(T, a)  cl == Classes(T, a) IN
  (IF Same(o.member, Members(a)) THEN {} ELSE {"MEMBER"})
  \cup (IF \A r \in Rng(o.reads) : Same(r, at) THEN {} ELSE {"READ"})
  \cup (IF \A r \in Rng(o.writes) : Same(r, at) THEN {} ELSE {"WRITE"})
  \* the simple form has three of the scales, for reading
  \cup (IF \A r \in Rng(o.simple) :
              /\ \A n \in DOMAIN at : at[n] \in {0, 2, 3} => n \in DOMAIN r /\ r[n] = at[n]
              /\ \A n \in DOMAIN r : n \in DOMAIN at /\ r[n] \in {at[n], -4}
        THEN {} ELSE {"READ"})
  \cup (IF \A r \in Rng(o.swrites) : \A n \in DOMAIN r : n \in DOMAIN at /\ (r[n] < 0 \/ r[n] = at[n])
        THEN {} ELSE {"WRITE"})
  \cup (IF Same(o.ctor, at) THEN {} ELSE {"CTOR"})
  \cup (IF Same(o.key, [n \in {x \in DOMAIN Members(a) : NameOf(T, x).key} |-> Members(a)[n]]) THEN {} ELSE {"KEY"})
  \cup (IF \A r \in Rng(o.classes) : Same(r, cl) THEN {} ELSE {"CLASSES"})
  \cup (IF \A r \in Rng(o.all) : Rng(r) = DOMAIN cl /\ Len(r) = Cardinality(DOMAIN cl) THEN {} ELSE {"ALL"})
  \cup (IF o.repr = Printed(T, a, <<3, 2, 1, 0>>) /\ o.srepr = Printed(T, a, <<3, 2, 0>>) THEN {} ELSE {"REPR"})
  \cup (IF o.lost = <<>> THEN {} ELSE {"LOST"})
  \cup (IF a = None => o.docs THEN {} ELSE {"DOCS"})

Next ==
  LET tr == Traces[t]  ev == tr.ev[i]  st == Step(tr.T, ev) IN
  /\ i <= Len(tr.ev)
  /\ LET b == st.bad \cup (IF ev.e = "fail" THEN {} ELSE Seen(tr.T, st.al, ev.o)) IN
     /\ bad' = bad \cup b
     /\ \A c \in b \ bad : PrintT(<<"VIOL", tr.id, i, c>>)
  /\ i = Len(tr.ev) => PrintT(<<"DONE", tr.id, i>>)
  /\ i' = i + 1
  /\ al' = st.al
  /\ t' = t
Spec == Init /\ [][Next]_<<t, i, al, bad>>
=============================================================================
