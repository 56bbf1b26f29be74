----------------------------- MODULE ArgsModel ------------------------------
(***************************************************************************)
(* All small signatures and all small calls, and what relates them.  They  *)
(* are printed to be performed on the implementation.                      *)
(***************************************************************************)
EXTENDS Args, Json

CONSTANT Names    \* of parameters
VARIABLE f
Rank == [po |-> 1, pk |-> 2, ko |-> 3]
Dflt(k) == 1000 + k
Par1(n, k, o, j) == [name |-> n, kind |-> k, opt |-> o, dflt |-> Dflt(j)]
Kinds == {"po", "pk", "ko"}
Lists == {<<>>} \cup {<<Par1(n, k, o, 1)>> : n \in Names, k \in Kinds, o \in BOOLEAN}
         \cup {<<Par1(n, k, o, 1), Par1(m, l, p, 2)>> : n \in Names, m \in Names, k \in Kinds, l \in Kinds, o \in BOOLEAN, p \in BOOLEAN}
\* that Python allows
Legal(q) == \A x \in DOMAIN q : \A y \in DOMAIN q : x < y =>
              /\ q[x].name # q[y].name
              /\ Rank[q[x].kind] <= Rank[q[y].kind]
              /\ (q[y].kind # "ko" /\ q[x].opt => q[y].opt)
Star1 == [name |-> "args", kind |-> "vp", opt |-> FALSE, dflt |-> 0]
Star2 == [name |-> "kwargs", kind |-> "vk", opt |-> FALSE, dflt |-> 0]
Front(q) == SelectSeq(q, LAMBDA p : p.kind # "ko")
Only(q) == SelectSeq(q, LAMBDA p : p.kind = "ko")
Signatures == {Front(q) \o (IF v THEN <<Star1>> ELSE <<>>) \o Only(q) \o (IF w THEN <<Star2>> ELSE <<>>) :
                 q \in {x \in Lists : Legal(x)}, v \in BOOLEAN, w \in BOOLEAN}

\* values that tell where they are from
Numbers(S, k) == [x \in S |-> k + Cardinality({y \in S : y = "a"}) + (IF x = "z" THEN 50 ELSE 0)]
Calls == [ps : Signatures, A : {[k \in 1..m |-> 10 + k] : m \in 0..2}, K : {Numbers(S, 100) : S \in SUBSET {"a", "z"}},
          X : {Numbers(S, 200) : S \in SUBSET {"a", "z"}}, sch : BOOLEAN]
\* the scheduler is passed or not, the execution id always is
Eval(c) == c.X @@ [execution_id |-> 503] @@ (IF c.sch THEN [scheduler |-> 501] ELSE <<>>)
Kw(c) == Offer(c.K, Eval(c))
Can(c) == ~Impossible(c.ps, c.A, Kw(c))

Init == /\ f \in Calls
        /\ Can(f) => PrintT(<<"CALL", ToJson(f)>>)
Next == UNCHANGED f
Spec == Init /\ [][Next]_f

(* What Python does with positional arguments P and keywords W. *)
Binds(ps, P, W) ==
  LET q == Positional(ps) IN
  /\ Len(P) > Len(q) => Collects(ps, "vp")
  /\ \A k \in DOMAIN q : k <= Len(P) => ~(q[k].kind = "pk" /\ q[k].name \in DOMAIN W)
  /\ \A k \in DOMAIN q : k > Len(P) => q[k].opt \/ (q[k].kind = "pk" /\ q[k].name \in DOMAIN W)
  /\ \A p \in Rng(ps) : p.kind = "ko" => p.opt \/ p.name \in DOMAIN W
  /\ DOMAIN W \ ByName(ps) # {} => Collects(ps, "vk")
Given(c) == IF Collects(c.ps, "vp") THEN c.A ELSE SubSeq(c.A, 1, Taken(c.ps, c.A, Kw(c)))
Passed(c) == {x \in DOMAIN Kw(c) : x \in ByName(c.ps) \/ Collects(c.ps, "vk")}
\* a call that can be made is one that Python accepts
Accepted == Can(f) => Binds(f.ps, Given(f), [x \in Passed(f) |-> Kw(f)[x]])
\* a call that leaves no doubt can be made; one parameter that is optional gives way to its name
Clear(c) ==
  LET q == Positional(c.ps)  kw == Kw(c)  byname(k) == q[k].kind = "pk" /\ q[k].name \in DOMAIN kw IN
  /\ \A k \in DOMAIN q : k <= Len(c.A) => ~byname(k) \/ (q[k].opt /\ ~Collects(c.ps, "vp"))
  /\ \A k \in DOMAIN q : k > Len(c.A) => q[k].opt \/ byname(k)
  /\ \A p \in Rng(c.ps) : p.kind = "ko" => p.opt \/ p.name \in DOMAIN kw
Possible == Clear(f) => Can(f)
\* what is received
Values == IF Can(f) THEN LET b == Bound(f.ps, f.A, Kw(f)) IN {b[x] : x \in DOMAIN b} ELSE {}
Received(v) == Cardinality({x \in Named(f.ps) : Bound(f.ps, f.A, Kw(f))[x] = v})
               + Cardinality({k \in DOMAIN Star(f.ps, f.A, Kw(f)) : Star(f.ps, f.A, Kw(f))[k] = v})
               + Cardinality({x \in DOMAIN Extra(f.ps, Kw(f)) : Extra(f.ps, Kw(f))[x] = v})
\* each positional argument goes to one place at most, to exactly one if all are collected
Once == Can(f) => \A k \in DOMAIN f.A : Received(f.A[k]) <= 1 /\ (Collects(f.ps, "vp") => Received(f.A[k]) = 1)
\* in their order
Ordered == Can(f) => \A j, k \in DOMAIN f.A : j < k /\ Received(f.A[k]) = 1 => Received(f.A[j]) = 1
\* what evaluation passes comes before what was stated
Override == Can(f) => \A x \in DOMAIN f.K \cap DOMAIN f.X : f.K[x] # f.X[x] => Received(f.K[x]) = 0
\* stated keywords that are asked for arrive
Arrive == Can(f) => \A x \in DOMAIN f.X : (x \in ByName(f.ps) \/ Collects(f.ps, "vk")) => Received(f.X[x]) = 1
\* others are withheld
Withheld == Can(f) => \A x \in DOMAIN Kw(f) : x \notin ByName(f.ps) /\ ~Collects(f.ps, "vk") => Received(Kw(f)[x]) = 0
\* a keyword no one asks for changes nothing
Blind == Can(f) /\ ~Collects(f.ps, "vk") /\ "z" \notin ByName(f.ps) =>
           LET less == [x \in DOMAIN Kw(f) \ {"z"} |-> Kw(f)[x]] IN
           ~Impossible(f.ps, f.A, less) /\ Bound(f.ps, f.A, less) = Bound(f.ps, f.A, Kw(f))
=============================================================================
