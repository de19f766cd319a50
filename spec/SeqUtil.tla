------------------------------- MODULE SeqUtil -------------------------------
(* Sequence helpers shared by the modules of the specification. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Range0(s) == {s[i] : i \in 1..Len(s)}
Has(s, x) == \E i \in 1..Len(s) : s[i] = x

\* index of the first element equal to x; 0 if there is none
RECURSIVE IxFrom(_, _, _)
IxFrom(s, x, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = x THEN i ELSE IxFrom(s, x, i + 1)
Ix(s, x) == IxFrom(s, x, 1)

IxWhere(s, P(_)) ==
    LET K == {i \in 1..Len(s) : P(s[i])} IN
    IF K = {} THEN 0 ELSE CHOOSE i \in K : \A j \in K : i <= j

DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
DropFirst(s, x) == LET i == Ix(s, x) IN IF i = 0 THEN s ELSE DropAt(s, i)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
NoDups(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Idx(s) == [i \in 1..Len(s) |-> i]
MapS(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
CountIf(s, P(_)) == Len(SelectSeq(s, P))

\* insertion of x behind all elements which are not greater, and stable insertion sort
InsertBy(s, x, LT(_, _)) ==
    LET K == {i \in 1..Len(s) : ~LT(x, s[i])}
        k == IF K = {} THEN 0 ELSE CHOOSE i \in K : \A j \in K : j <= i
    IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
SortBy(s, LT(_, _)) == FoldLeft(LAMBDA acc, x : InsertBy(acc, x, LT), <<>>, s)

SumS(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Bool(b) == IF b THEN 1 ELSE 0
=============================================================================
