----------------------------- MODULE AliasModel -----------------------------
(***************************************************************************)
(* All short histories of setting and removing a few aliases; they are     *)
(* printed to be replayed.  What the names mean comes from the             *)
(* implementation's package (WORLD_FILE).                                  *)
(***************************************************************************)
EXTENDS Alias, Json, IOUtils

World == JsonDeserialize(IOEnv.WORLD_FILE)
T == World.T
Names == Rng(World.pool)
VARIABLES al, hist
Init == al = None /\ hist = <<>>
Next ==
  /\ Len(hist) < World.depth
  /\ \/ \E n \in Names, s \in Rng(World.scales) :
          /\ al' = IF CanSet(T, al, s, n) THEN Set(al, s, n) ELSE al
          /\ hist' = Append(hist, [e |-> "set", name |-> n, kind |-> "scale", target |-> s])
     \/ \E n \in Names :
          /\ al' = Remove(al, n)
          /\ hist' = Append(hist, [e |-> "remove", name |-> n])
  /\ Len(hist') = World.depth => PrintT(<<"HIST", ToJson(hist')>>)
Spec == Init /\ [][Next]_<<al, hist>>

OneEach == \A p, q \in DOMAIN al : p # q => al[p] # al[q]
\* no name means two things, and none hides an original one
Apart ==
  /\ \A p, q \in DOMAIN al : p # q => NameOf(T, al[p]).low # NameOf(T, al[q]).low
                                     /\ ClassesOf(T, p, al[p]) \cap ClassesOf(T, q, al[q]) = {}
  /\ \A p \in DOMAIN al : /\ al[p] \notin Rng(T.members)
                          /\ NameOf(T, al[p]).low \notin Rng(T.attrs)
                          /\ ClassesOf(T, p, al[p]) \cap Rng(T.classes) = {}
\* setting and removing a name for a scale without alias leaves nothing behind
Undone == \A s \in Rng(World.scales) \ DOMAIN al : \A n \in Names : CanSet(T, al, s, n) => Remove(Set(al, s, n), n) = al
\* each alias is seen under all its names
Complete ==
  /\ DOMAIN Attrs(T, al) = {NameOf(T, al[q]).low : q \in DOMAIN al}
  /\ \A c \in DOMAIN Classes(T, al) : \E q \in DOMAIN al : Classes(T, al)[c] \in Rng(T.orig[q + 1])
=============================================================================
