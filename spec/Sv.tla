--------------------------------- MODULE Sv ----------------------------------
(***************************************************************************)
(* String views: a view is an interval of a piece of memory, or null. What *)
(* can be observed of it depends only on the bytes which it covers.        *)
(* Memory is a sequence of bytes; views of one memory may overlap, touch   *)
(* or be the same. [b, e) with b, e in 0..Len(mem); null is <<-1, -1>>.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Null == <<-1, -1>>
Content(mem, v) == IF v = Null THEN <<>> ELSE SubSeq(mem, v[1] + 1, v[2])
Intervals(n) == {<<b, e>> \in (0..n) \X (0..n) : b <= e}
Views(n) == Intervals(n) \cup {Null}

\* lexicographic order of byte strings, a proper prefix is smaller
FirstDiff(x, y) ==
    LET n == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)
        d == {i \in 1..n : x[i] # y[i]}
    IN IF d = {} THEN 0 ELSE CHOOSE i \in d : \A j \in d : i <= j
Cmp(x, y) ==
    LET i == FirstDiff(x, y)
    IN IF i # 0 THEN (IF x[i] < y[i] THEN -1 ELSE 1)
       ELSE IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1 ELSE 0
StartsWith(x, p) == Len(p) <= Len(x) /\ SubSeq(x, 1, Len(p)) = p
Where(x, q) == {i \in 1..Len(x) : x[i] = q}
First(x, q) == IF Where(x, q) = {} THEN 0 ELSE CHOOSE i \in Where(x, q) : \A j \in Where(x, q) : i <= j
Last(x, q) == IF Where(x, q) = {} THEN 0 ELSE CHOOSE i \in Where(x, q) : \A j \in Where(x, q) : j <= i
\* what a C string at offset b of the memory covers: up to the first 0 (the memory is followed by one)
StrEnd(mem, b) == LET z == {i \in (b + 1)..Len(mem) : mem[i] = 0}
                  IN IF z = {} THEN Len(mem) ELSE (CHOOSE i \in z : \A j \in z : i <= j) - 1

(* What has to be observed of the views vs, asked for the bytes qs and the prefixes ps *)
Bool(b) == IF b THEN 1 ELSE 0
Observe(mem, vs, qs, ps) ==
    LET c(i) == Content(mem, vs[i])
        N == 1..Len(vs)
    IN [len |-> [i \in N |-> Len(c(i))],
        empty |-> [i \in N |-> Bool(c(i) = <<>>)],
        null |-> [i \in N |-> Bool(vs[i] = Null)],
        cmp |-> [i \in N |-> [j \in N |-> Cmp(c(i), c(j))]],
        eq |-> [i \in N |-> [j \in N |-> Bool(c(i) = c(j))]],
        starts |-> [i \in N |-> [j \in 1..Len(ps) |-> Bool(StartsWith(c(i), ps[j]))]],
        \* offsets from the beginning of the view, -1: there is none
        first |-> [i \in N |-> [j \in 1..Len(qs) |-> First(c(i), qs[j]) - 1]],
        last |-> [i \in N |-> [j \in 1..Len(qs) |-> Last(c(i), qs[j]) - 1]],
        str |-> [b \in 1..(Len(mem) + 1) |-> StrEnd(mem, b - 1)]]

(* The order is a strict weak one whose equivalence is equality *)
OrderSound(S) ==
    /\ \A x \in S, y \in S : Cmp(x, y) = -Cmp(y, x) /\ (Cmp(x, y) = 0 <=> x = y)
    /\ \A x \in S, y \in S, z \in S : Cmp(x, y) <= 0 /\ Cmp(y, z) <= 0 => Cmp(x, z) <= 0
    /\ \A x \in S, y \in S : StartsWith(x, y) /\ x # y => Cmp(y, x) = -1
SearchSound(S, Q) ==
    \A x \in S, q \in Q :
        /\ (First(x, q) = 0) = (Last(x, q) = 0)
        /\ First(x, q) # 0 => /\ First(x, q) <= Last(x, q) /\ x[First(x, q)] = q /\ x[Last(x, q)] = q
                              /\ \A i \in 1..(First(x, q) - 1) \cup (Last(x, q) + 1)..Len(x) : x[i] # q

(* Lengths beyond 2^31: a view of a memory of zeroes is <<offset, length>>, counted in pieces of 2^30 and bytes *)
CmpBig(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1) ELSE IF a[2] # b[2] THEN (IF a[2] < b[2] THEN -1 ELSE 1) ELSE 0
=============================================================================
