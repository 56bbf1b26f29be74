------------------------------ MODULE TwinTrace ------------------------------
(***************************************************************************)
(* Several schedulers in one process, built from shared or equal inputs.   *)
(* The specification of the whole is the product of one SchedCore          *)
(* behaviour per scheduler: an event of scheduler w changes the state of   *)
(* w alone, and what is seen of any other scheduler, and of the objects    *)
(* the caller handed in, is what it was before.                            *)
(***************************************************************************)
EXTENDS SchedTrace

TInit == /\ t \in DOMAIN Traces
         /\ i = 1
         /\ st = [w \in DOMAIN Traces[t].half |-> InitSt(Traces[t].half[w])]

TReport(old, r, tr, k) ==
  /\ \A c \in r.soft \ old.soft : PrintT(<<"VIOL", tr.id, k, c>>)
  /\ r.hard # "" => PrintT(<<"VIOL", tr.id, k, r.hard>>)
  /\ (r.hard # "" \/ k = Len(tr.ev)) => PrintT(<<"DONE", tr.id, k>>)

TNext ==
  LET tr == Traces[t] IN
  /\ i <= Len(tr.ev)
  /\ \A w \in DOMAIN st : st[w].hard = ""
  /\ LET ev == tr.ev[i]
         w  == ev.w
         r  == Apply(st[w], tr.half[w], ev)
     IN /\ TReport(st[w], r, tr, i)
        /\ st' = [st EXCEPT ![w] = r]
  /\ i' = i + 1
  /\ t' = t

TSpec == TInit /\ [][TNext]_vars
==============================================================================
