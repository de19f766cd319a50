------------------------------- MODULE SvExec --------------------------------
(* Enumerates all views of all short memories, and takes longer ones from a file; writes down what has to be observed. *)
EXTENDS Sv, Json, IOUtils, TLC, SequencesExt

Alphabet == {0, 97, 200}
MaxLen == atoi(IOEnv.VF_MAXLEN)
Given == JsonDeserialize(IOEnv.VF_CASES)
OutDir == IOEnv.VF_OUT

\* lengths in pieces of 2^30 and bytes
Big == <<<<0, 0>>, <<0, 1>>, <<1, 0>>, <<2, 0>>, <<2, 1>>, <<4, 0>>, <<4, 1>>>>
BigPairs == {<<i, j>> \in (1..Len(Big)) \X (1..Len(Big)) : i <= 2 \/ j <= 2 \/ (i = j /\ i <= 3)}
BigWant == SetToSeq({[a |-> Big[p[1]], b |-> Big[p[2]], cmp |-> CmpBig(Big[p[1]], Big[p[2]]), eq |-> Bool(p[1] = p[2]),
                      len |-> Big[p[1]], last |-> Big[p[1]], starts |-> 1] : p \in BigPairs})

VARIABLES mem, given, bad
vars == <<mem, given, bad>>
Small == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Queries == <<0, 97, 98, 200, 127>>
Heads == <<<<>>, <<97>>, <<200>>, <<97, 200>>, <<200, 97>>, <<97, 97>>, <<98>>, <<97, 97, 97, 97, 97, 97>>>>
Init == /\ bad = {}
        /\ \/ mem \in Small /\ given = 0
           \/ mem = <<>> /\ given = -1
           \/ given \in 1..Len(Given) /\ mem = Given[given].mem
RECURSIVE Name(_)
Name(s) == IF s = <<>> THEN "" ELSE ToString(Head(s)) \o "_" \o Name(Tail(s))
Next == IF given = -1 THEN "done" \notin bad /\ JsonSerialize(OutDir \o "/big.json", BigWant) /\ bad' = {"done"} /\ UNCHANGED <<mem, given>>
        ELSE
        LET g == Given[given]
            vs == IF given = 0 THEN SetToSeq(Views(Len(mem))) ELSE g.vs
            qs == IF given = 0 THEN Queries ELSE g.qs
            ps == IF given = 0 THEN Heads ELSE g.ps
            S == {Content(mem, vs[i]) : i \in 1..Len(vs)}
            f == OutDir \o "/" \o (IF given = 0 THEN "e" \o Name(mem) ELSE "g" \o ToString(given)) \o ".json"
        IN /\ "done" \notin bad
           /\ JsonSerialize(f, [mem |-> mem, vs |-> vs, qs |-> qs, ps |-> ps, want |-> Observe(mem, vs, qs, ps)])
           /\ bad' = (IF OrderSound(S) THEN {} ELSE {"order"}) \cup (IF SearchSound(S, {qs[i] : i \in 1..Len(qs)}) THEN {} ELSE {"search"}) \cup {"done"}
           /\ UNCHANGED <<mem, given>>
Spec == Init /\ [][Next]_vars
Sound == bad \subseteq {"done"}
=============================================================================
