------------------------------- MODULE MemExec -------------------------------
(* Works out what has to be observed in the cases of a file; some cases are enumerated here. *)
EXTENDS Mem, Json, IOUtils, TLC, SequencesExt, FiniteSetsExt

Given == JsonDeserialize(IOEnv.VF_CASES)
OutDir == IOEnv.VF_OUT

RECURSIVE Run(_, _, _)
Run(m, ops, i) == IF i > Len(ops) THEN <<>> ELSE LET y == Do(m, ops[i]) IN <<y>> \o Run(y.m, ops, i + 1)
RECURSIVE States(_, _, _)
States(m, ops, i) == IF i > Len(ops) THEN {} ELSE {<<m, ops[i]>>} \cup States(Do(m, ops[i]).m, ops, i + 1)

Forwarded(ks, t) == [i \in 1..Len(ks) |-> Received(ks[i], t)]

Want(c) ==
    CASE c.k = "mul" -> [i \in 1..Len(c.s) |-> NextMultiple(c.s[i], c.n)]
      [] c.k = "size" -> [i \in 1..Len(c.s) |-> Buffer(c.s[i], c.a)]
      [] c.k = "order" -> [i \in 1..Len(c.i) |-> [j \in 1..Len(c.i) |-> IF Before(c.i[i], c.i[j]) THEN 1 ELSE 0]]
      [] c.k = "mem" -> Run(c.m, c.ops, 1)
      [] c.k = "ids" -> [i \in 1..Len(c.v) |-> [j \in 1..Len(c.v) |-> IF c.v[i] = c.v[j] THEN 1 ELSE 0]]
      [] c.k = "args" -> [i \in 1..Len(c.l) |-> Forwarded(c.l[i], c.t[i])]
Sound(c) ==
    CASE c.k = "mul" -> \A i \in 1..Len(c.s) : IsNextMultiple(NextMultiple(c.s[i], c.n), c.s[i], c.n)
      [] c.k = "size" -> \A i \in 1..Len(c.s) : BufferSound(c.s[i], c.a)
      [] c.k = "order" -> TotalOrder({c.i[j] : j \in 1..Len(c.i)})
      [] c.k = "mem" -> \A x \in States(c.m, c.ops, 1) : Framed(x[1], x[2])
      [] OTHER -> TRUE

VARIABLES n, bad
Init == n \in 1..Len(Given) /\ bad = {}
Next == /\ "done" \notin bad
        /\ LET c == Given[n] IN
           /\ JsonSerialize(OutDir \o "/" \o ToString(n) \o ".json", [want |-> Want(c)])
           /\ bad' = {"done"} \cup (IF Sound(c) THEN {} ELSE {"unsound"})
        /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, bad>>
NoneBad == "unsound" \notin bad
=============================================================================
