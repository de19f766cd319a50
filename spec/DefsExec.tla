------------------------------ MODULE DefsExec -------------------------------
(* Works out what has to be observed of the definitions in a file. *)
EXTENDS Defs, Json, IOUtils

Given == JsonDeserialize(IOEnv.VF_CASES)
OutDir == IOEnv.VF_OUT

Steps(c) == [i \in 1..Len(c.defs) |-> BCalls(Blank(c.defs[i].n, c.defs[i].s, c.defs[i].a), i, c.defs[i].cs, 1)]
Ends(c) == [i \in 1..Len(c.defs) |-> LET s == Steps(c)[i] IN IF s = <<>> THEN Blank(c.defs[i].n, c.defs[i].s, c.defs[i].a) ELSE s[Len(s)]]
Want(c) ==
    CASE c.k = "defs" -> LET ends == Ends(c)
                             C == Universe(ends, c.shared, c.feats, c.set)
                         IN [defs |-> Steps(c), dom |-> DomOps(C, ends, c.shared, W0(C, 0), c.ops, 1)]
      [] c.k = "settings" -> Settings(c.cs)
      [] c.k = "perks" -> [b |-> Bid(c.ks), p |-> Prio(c.ks), hb |-> [i \in 1..Len(c.ks) |-> Perk(c.ks[i])]]
      [] c.k = "feat" -> FeatCalls([n |-> c.n, v |-> 0, c |-> 0], c.cs, 1)
      [] c.k = "traits" -> OpsOf(c.t)
Sound(c) == c.k = "defs" => \A i \in 1..Len(c.defs) : DefSound(Ends(c)[i], c.defs[i].cs)

VARIABLES n, bad
Init == n \in 1..Len(Given) /\ bad = {}
Next == /\ "done" \notin bad
        /\ JsonSerialize(OutDir \o "/" \o ToString(n) \o ".json", [want |-> Want(Given[n])])
        /\ bad' = {"done"} \cup (IF Sound(Given[n]) THEN {} ELSE {"unsound"})
        /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, bad>>
NoneBad == "unsound" \notin bad
=============================================================================
