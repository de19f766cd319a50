--------------------------------- MODULE Mem ---------------------------------
(***************************************************************************)
(* Sizes and alignments, the order of mixin infos, the stock functions on  *)
(* the memory of mixins, the owner reference, and the forwarding of stored *)
(* constructor arguments.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets
S == INSTANCE Sv

PtrSize == 8
InvalidId == -1     \* the greatest 32 bit number

(* ------------------------------------------------------------- sizes *)
\* the smallest multiple of n which is not below s
NextMultiple(s, n) == IF s % n = 0 THEN s ELSE s + (n - (s % n))
IsNextMultiple(r, s, n) == r % n = 0 /\ r >= s /\ r - n < s

\* separate buffer of a mixin of size s and alignment a: [size, alignment of it, offset of the mixin]
Buffer(s, a) == LET m == IF a < PtrSize THEN PtrSize ELSE a IN [size |-> s, align |-> a, buf |-> s + m, off |-> m]
\* there is room for the owner reference right in front of the mixin, and both are aligned
BufferSound(s, a) ==
    LET b == Buffer(s, a) IN
    /\ b.off >= PtrSize /\ b.off % PtrSize = 0
    /\ a > 0 => b.off % a = 0
    /\ b.off + s <= b.buf

(* ------------------------------------------------------------- order *)
\* infos: [p, n (bytes of the name), id (-1: not registered), at (place in memory)]
Before(x, y) ==
    IF x.p # y.p THEN x.p < y.p
    ELSE IF x.n # y.n THEN S!Cmp(x.n, y.n) < 0
    ELSE IF x.id # y.id THEN (IF x.id = -1 THEN FALSE ELSE IF y.id = -1 THEN TRUE ELSE x.id < y.id)
    ELSE x.at < y.at
TotalOrder(I) ==
    /\ \A x \in I, y \in I : x # y => (Before(x, y) # Before(y, x))
    /\ \A x \in I : ~Before(x, x)
    /\ \A x \in I, y \in I, z \in I : Before(x, y) /\ Before(y, z) => Before(x, z)

(* ------------------------------------------------------------- memory *)
\* a memory is a sequence of bytes; offsets count from 0
Part(m, p, n) == SubSeq(m, p + 1, p + n)
Put(m, p, b) == [i \in 1..Len(m) |-> IF i > p /\ i <= p + Len(b) THEN b[i - p] ELSE m[i]]
Same(n, x) == [i \in 1..n |-> x]
\* the owner references used: object k is at address 0x11223344556677(80 + 8 k)
OwnerBytes(k) == <<128 + 8 * k, 119, 102, 85, 68, 51, 34, 17>>

\* op: [o, p (target), q (source), n (size)]; result: [m, r]
Do(m, op) ==
    CASE op.o = "init" -> [m |-> Put(m, op.p, Same(op.n, 0)), r |-> 0]
      [] op.o = "copy" -> [m |-> Put(m, op.p, Part(m, op.q, op.n)), r |-> 0]
      [] op.o = "move" -> [m |-> Put(Put(m, op.p, Part(m, op.q, op.n)), op.q, Same(op.n, 0)), r |-> 0]
      [] op.o = "movecopy" -> [m |-> Put(m, op.p, Part(m, op.q, op.n)), r |-> 0]
      [] op.o = "destroy" -> [m |-> Put(m, op.p, Same(op.n, 254)), r |-> 0]
      [] op.o = "cmp" -> [m |-> m, r |-> S!Cmp(Part(m, op.p, op.n), Part(m, op.q, op.n))]
      [] op.o = "eq" -> [m |-> m, r |-> IF Part(m, op.p, op.n) = Part(m, op.q, op.n) THEN 1 ELSE 0]
      [] op.o \in {"ninit", "ncopy", "nmove", "ncmp"} -> [m |-> m, r |-> 0]
      \* the owner reference is right in front of the mixin at p
      [] op.o = "own" -> [m |-> Put(m, op.p - PtrSize, OwnerBytes(op.n)), r |-> 0]
      [] op.o = "of" -> [m |-> m, r |-> Part(m, op.p - PtrSize, PtrSize)]
      [] op.o = "ofc" -> [m |-> m, r |-> Part(m, op.p - PtrSize, PtrSize)]
\* what lies outside of the areas named is not touched, comparisons touch nothing
Framed(m, op) ==
    LET y == Do(m, op).m
        W == IF op.o \in {"init", "copy", "move", "movecopy", "destroy"} THEN (op.p + 1)..(op.p + op.n) ELSE IF op.o = "own" THEN (op.p + 1 - PtrSize)..op.p ELSE {}
        V == IF op.o = "move" THEN (op.q + 1)..(op.q + op.n) ELSE {}
    IN Len(y) = Len(m) /\ \A i \in 1..Len(m) : i \notin W \cup V => y[i] = m[i]

(* ------------------------------------------------------------- arguments *)
\* how an argument is stored: as a value, a constant value, or by reference; how the tuple is passed on
Kinds == <<"v", "cv", "l", "cl", "r">>     \* T, const T, T&, const T&, T&&
Tuples == <<"l", "cl", "r">>               \* tuple&, const tuple&, tuple&&
\* the category in which the constructor gets it
Received(kind, tuple) ==
    CASE kind = "v" -> (CASE tuple = "l" -> "l" [] tuple = "cl" -> "cl" [] tuple = "r" -> "r")
      [] kind = "cv" -> (IF tuple = "r" THEN "cr" ELSE "cl")
      [] kind = "l" -> "l"
      [] kind = "cl" -> "cl"
      [] kind = "r" -> (IF tuple = "r" THEN "r" ELSE "l")
=============================================================================
