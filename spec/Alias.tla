-------------------------------- MODULE Alias --------------------------------
(***************************************************************************)
(* Aliases of time scales.                                                 *)
(*                                                                         *)
(* al: time scale (0..4) -> alias name, for the scales that have one.      *)
(* T: what names mean, a record with                                       *)
(*   members, attrs, classes: the names that exist without any alias (of   *)
(*     the time scales, of times, and of the package)                      *)
(*   orig: per scale (1..5) the names of the conditions that carry its     *)
(*     name                                                                *)
(*   base: per scale its name in printed times                             *)
(*   names: name -> [low, cls], the attribute name, and per scale the      *)
(*     names of the conditions in orig with the alias instead              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Scales == 0..4
Rng(q) == {q[k] : k \in DOMAIN q}
None == [s \in {} |-> ""]
NameOf(T, n) == T.names[n]
ClassesOf(T, s, n) == Rng(NameOf(T, n).cls[s + 1])

Taken(T, al, s, n) ==
  \/ n \in Rng(T.members)
  \/ \E q \in DOMAIN al : al[q] = n
  \/ NameOf(T, n).low \in Rng(T.attrs)
  \/ \E q \in DOMAIN al \ {s} : NameOf(T, al[q]).low = NameOf(T, n).low
  \/ ClassesOf(T, s, n) \cap Rng(T.classes) # {}
  \/ \E q \in DOMAIN al \ {s} : ClassesOf(T, q, al[q]) \cap ClassesOf(T, s, n) # {}

\* what a target denotes: a scale or -1
Target(al, base, kind, v) ==
  CASE kind = "scale" -> v
    [] kind = "name" -> LET hit == {q \in Scales : base[q + 1] = v \/ (q \in DOMAIN al /\ al[q] = v)}
                        IN IF hit = {} THEN -1 ELSE CHOOSE q \in hit : TRUE
    [] OTHER -> -1

CanSet(T, al, s, n) == s \in Scales /\ ~Taken(T, al, s, n)
Set(al, s, n) == (s :> n) @@ al
Remove(al, n) == [q \in {x \in DOMAIN al : al[x] # n} |-> al[q]]

\* what can be seen
Members(al) == [n \in {al[q] : q \in DOMAIN al} |-> CHOOSE q \in DOMAIN al : al[q] = n]
Attrs(T, al) == [a \in {NameOf(T, al[q]).low : q \in DOMAIN al} |->
                   CHOOSE q \in DOMAIN al : NameOf(T, al[q]).low = a]
Classes(T, al) ==
  [c \in UNION {ClassesOf(T, q, al[q]) : q \in DOMAIN al} |->
     LET q == CHOOSE q \in DOMAIN al : c \in ClassesOf(T, q, al[q])
         k == CHOOSE k \in DOMAIN NameOf(T, al[q]).cls[q + 1] : NameOf(T, al[q]).cls[q + 1][k] = c
     IN T.orig[q + 1][k]]
Printed(T, al, order) ==
  [k \in DOMAIN order |-> IF order[k] \in DOMAIN al THEN NameOf(T, al[order[k]]).low ELSE T.base[order[k] + 1]]
=============================================================================
