-------------------------------- MODULE Args --------------------------------
(***************************************************************************)
(* Which arguments a user function receives.                               *)
(*                                                                         *)
(* ps: its parameters in order, [name, kind, dflt (default) , opt], kind   *)
(*   "po" positional only, "pk" positional or keyword, "ko" keyword only,  *)
(*   "vp" all further positional ones, "vk" all further keyword ones.      *)
(* args: positional values on offer, kw: keyword values on offer           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(q) == {q[k] : k \in DOMAIN q}
Positional(ps) == SelectSeq(ps, LAMBDA p : p.kind \in {"po", "pk"})
Collects(ps, kind) == \E p \in Rng(ps) : p.kind = kind
ByName(ps) == {p.name : p \in {x \in Rng(ps) : x.kind \in {"pk", "ko"}}}

\* an optional parameter that is given by name ends the positional ones
Room(ps, kw) ==
  LET q == Positional(ps)
      named == {k \in DOMAIN q : q[k].opt /\ q[k].kind = "pk" /\ q[k].name \in DOMAIN kw}
  IN Cardinality({k \in DOMAIN q : ~q[k].opt \/ \A j \in named : k < j})
Taken(ps, args, kw) ==
  LET q == Positional(ps)
      room == IF Collects(ps, "vp") THEN Len(q) ELSE Room(ps, kw)
  IN IF Len(args) < room THEN Len(args) ELSE room

Index(q, name) == CHOOSE k \in DOMAIN q : q[k].name = name
Named(ps) == {p.name : p \in {x \in Rng(ps) : x.kind \in {"po", "pk", "ko"}}}
Par(ps, name) == CHOOSE p \in Rng(ps) : p.name = name /\ p.kind \in {"po", "pk", "ko"}

\* how parameter name gets its value
Source(ps, args, kw, name) ==
  LET q == Positional(ps)  p == Par(ps, name)  pos == \E k \in DOMAIN q : q[k].name = name IN
  IF pos /\ Index(q, name) <= Taken(ps, args, kw)
  THEN IF p.kind = "pk" /\ name \in DOMAIN kw THEN "twice" ELSE "position"
  ELSE IF p.kind # "po" /\ name \in DOMAIN kw THEN "keyword"
  ELSE IF p.opt THEN "default" ELSE "missing"

\* the call cannot be made
Impossible(ps, args, kw) == \E x \in Named(ps) : Source(ps, args, kw, x) \in {"twice", "missing"}

Bound(ps, args, kw) ==
  [x \in Named(ps) |->
     LET s == Source(ps, args, kw, x) IN
     CASE s = "position" -> args[Index(Positional(ps), x)]
       [] s = "keyword" -> kw[x]
       [] OTHER -> Par(ps, x).dflt]
Star(ps, args, kw) ==
  IF Collects(ps, "vp") THEN SubSeq(args, Len(Positional(ps)) + 1, Len(args)) ELSE <<>>
Extra(ps, kw) ==
  IF Collects(ps, "vk") THEN [x \in DOMAIN kw \ ByName(ps) |-> kw[x]] ELSE <<>>
\* evaluation keywords come first
Offer(stated, eval) == eval @@ stated
=============================================================================
