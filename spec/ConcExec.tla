------------------------------ MODULE ConcExec -------------------------------
(***************************************************************************)
(* Follows histories recorded from the implementation.  The histories of a *)
(* program are a tree (many begin alike): node k has the children kids[k]  *)
(* and is reached by the event ev[k], <<"c", thread, number of the         *)
(* operation>> or <<"r", thread, what was returned>>.  Thread 0 is the     *)
(* main thread, which prepares the domain (its operations are setup);      *)
(* operation 0 of the main thread is the look at what is left.             *)
(***************************************************************************)
EXTENDS Conc, Json, IOUtils

Progs == JsonDeserialize(IOEnv.VF_CASES)

VARIABLES pr, node, S
vars == <<pr, node, S>>
View == <<pr, node>>

P == Progs[pr]
C0 == P.u
OpOf(P_, t, i) == IF i = 0 THEN [o |-> "trav"] ELSE IF t = 0 THEN P_.setup[i] ELSE P_.th[t][i]

Init == /\ pr \in 1..Len(Progs)
        /\ node = 1
        /\ S = {Start(C0, Len(P.th) + 1, P.nob)}
Feed(C, e) == IF e[1] = "c" THEN CallOn(S, e[2] + 1, OpOf(P, e[2], e[3]))
              ELSE ReturnOn(C, S, e[2] + 1, e[3])
Next == /\ S # {}
        /\ \E k \in 1..Len(P.kids[node]) :
            /\ node' = P.kids[node][k]
            /\ S' = Feed(C0, P.ev[P.kids[node][k]])
        /\ UNCHANGED pr
Spec == Init /\ [][Next]_vars
Possible == S # {}
Sound == \A s \in S : StateOk(C0, s)
Short == [program |-> pr, node |-> node, event |-> P.ev[node], size |-> Cardinality(S)]
=============================================================================
