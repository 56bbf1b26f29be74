------------------------------ MODULE TimeTree ------------------------------
(***************************************************************************)
(* What a time history has to answer.                                      *)
(*                                                                         *)
(* Time scales are 0 (consideration set execution) .. 4 (life).  A history *)
(* is kept at a scale top (its root) down to units of scale depth.         *)
(* State h:  now   current value of every scale below 4                    *)
(*           log   the advances so far: scale and the time at which        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Integers, TLC

LIFE == 4
Scales == 0..3
Zero == [k \in Scales |-> 0]
FreshTime == [now |-> Zero, log |-> <<>>]
Advanced(t, k) == [j \in Scales |-> IF j < k THEN 0 ELSE IF j = k THEN t[j] + 1 ELSE t[j]]
Inc(h, k) == [now |-> Advanced(h.now, k), log |-> Append(h.log, [k |-> k, at |-> h.now])]

Moments(h) == {h.log[i].at : i \in DOMAIN h.log} \cup {h.now}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

(* a place: indices of units of the scales top-1 down to b; it exists if    *)
(* time has been there                                                      *)
At(t, place) == \A k \in DOMAIN place : t[k] = place[k]
Exists(h, place) == \E t \in Moments(h) : At(t, place)
Count(h, q, place) == Cardinality({i \in DOMAIN h.log : h.log[i].k = q /\ At(h.log[i].at, place)})

\* fill in the latest units for the ones not given, from coarse to fine
RECURSIVE Place(_, _, _, _, _)
Place(h, B, k, b, place) ==
  IF k < b THEN place
  ELSE LET with(v) == place @@ (k :> v)
           seen == {t[k] : t \in {u \in Moments(h) : At(u, place)}}
           p == IF k \in DOMAIN B THEN with(B[k]) ELSE with(MaxOf(seen))
       IN IF ~Exists(h, p) THEN p ELSE Place(h, B, k - 1, b, p)

(* number of units of scale q in the unit that B names (scale -> index);   *)
(* -1: refused                                                             *)
Query(h, top, depth, q, B) ==
  IF q >= top THEN -1
  ELSE LET b == MinOf({k \in DOMAIN B : k > q} \cup {LIFE}) IN
    IF b > top THEN -1                      \* more than is recorded
    ELSE IF b < top /\ b < depth THEN -1    \* finer than is recorded
    ELSE LET p == Place(h, B, top - 1, b, <<>>) IN
         IF Exists(h, p) /\ DOMAIN p = b..(top - 1) THEN Count(h, q, p) ELSE -1
=============================================================================
