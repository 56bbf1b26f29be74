------------------------------ MODULE GSCModel ------------------------------
(***************************************************************************)
(* Exhaustive check of the structure conditions on small graphs: every     *)
(* outcome the cleanup procedure can have meets the promises that          *)
(* ResultClauses states, for all graphs (acyclic ones if Dag), owners,     *)
(* subject sets, classes, and the operations and options of the constants. *)
(***************************************************************************)
EXTENDS GSC, IOUtils
CONSTANTS N, Dag, OpMode, OptMode

Ops  == CASE OpMode = "default" -> {"default"}
         [] OpMode = "few" -> {"KEEP", "REPLACE", "DISCARD"}
         [] OpMode = "some" -> {"KEEP", "MERGE", "DISCARD", "REPLACE"}
         [] OpMode = "all" -> OpNames
Opts == IF OptMode = "default" THEN {<<TRUE, TRUE, TRUE>>}
        ELSE IF OptMode = "two" THEN {<<TRUE, TRUE, TRUE>>, <<FALSE, FALSE, FALSE>>}
        ELSE {<<a, b, d>> : a \in BOOLEAN, b \in BOOLEAN, d \in BOOLEAN}

Graph == [1..N -> SUBSET (1..N)]
VARIABLES phase, g, c

Start == IF Dag THEN {x \in Graph : ~IsCyclic(x)} ELSE Graph
Seqs(S) == {q \in UNION {[1..k -> S] : k \in 1..Cardinality(S)} :
              \A i, j \in DOMAIN q : i < j => q[i] < q[j]}
Conds ==
  UNION {UNION {
    {[cls |-> cls, o |-> o, d |-> d,
      os |-> IF Ops = {"default"} THEN (IF cls = "After" THEN "KEEP" ELSE "MERGE") ELSE IF cls = "With" THEN "MERGE" ELSE op[1],
      or |-> IF Ops = {"default"} THEN (IF cls = "After" THEN "MERGE" ELSE "KEEP") ELSE op[2],
      ss |-> [k \in DOMAIN d |-> IF Ops = {"default"} THEN (IF cls = "Before" THEN "KEEP" ELSE "MERGE")
                                 ELSE IF cls = "With" THEN "MERGE" ELSE op[3]],
      sr |-> [k \in DOMAIN d |-> IF Ops = {"default"} THEN "KEEP" ELSE op[4]],
      rec |-> z[1], self |-> z[2], prune |-> z[3], ign |-> OpMode # "default"]
     : cls \in {"Before", "After", "With"}, d \in Seqs(1..N \ {o}), op \in Ops \X Ops \X Ops \X Ops, z \in Opts}
    : o \in {oo}} : oo \in 1..N}

Init == phase = "graph" /\ g \in Start /\ c = 0
Next == /\ phase = "graph" /\ phase' = "cond" /\ g' = g
        /\ c' \in {x \in Conds : x.cls # "With" \/ Len(x.d) = 1}
Spec == Init /\ [][Next]_<<phase, g, c>>

Inv == phase = "cond" /\ ~Refused(c, g) =>
         \A res \in Results(c, g) :
           LET v == ResultClauses(c, g, res) IN v = {} \/ ~PrintT(<<"BREAKS", v, res, Processed(c, g)>>)
=============================================================================
