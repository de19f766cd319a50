------------------------------- MODULE V1Exec --------------------------------
(* Works out what has to be observed of the cases in a file. *)
EXTENDS V1, Json, IOUtils

Given == JsonDeserialize(IOEnv.VF_CASES)
OutDir == IOEnv.VF_OUT

Defs(c) == [i \in 1..Len(c.defs) |-> Parsed(i, c.defs[i])]
Program == [k \in 1..4 |-> CNew(Ks[k])]
Want(c) ==
    IF c.k = "comb" THEN CHist(CNew(c.c), c.os, 1)
    ELSE LET ds == Defs(c)
             C == Universe(ds, c.F, c.rules, c.tcs, c.nocopy)
             g == RegAll(C, W0(C, 0), 1)
         IN [defs |-> ds, reg |-> g.l,
             ops |-> IF c.k = "rules" THEN RuleOps(C, g.w, <<>>, c.ops, 1) ELSE Calls(C, c.F, g.w, Program, c.ops, 1)]
Adds(os) == LET A(x) == x.o = "add" y == SelectSeq(os, A) IN [i \in 1..Len(y) |-> y[i].v]
Sound(c) == c.k = "comb" => FoldSound(c.c, Adds(c.os))

VARIABLES n, bad
Init == n \in 1..Len(Given) /\ bad = {}
Next == /\ "done" \notin bad
        /\ JsonSerialize(OutDir \o "/" \o ToString(n) \o ".json", [want |-> Want(Given[n])])
        /\ bad' = {"done"} \cup (IF Sound(Given[n]) THEN {} ELSE {"unsound"})
        /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, bad>>
NoneBad == "unsound" \notin bad
=============================================================================
