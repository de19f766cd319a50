------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The places of what belongs to an object. A recorded layout is           *)
(*   hdr  <<block, offset, length>> of the table of the object's mixins    *)
(*   mx   for every mixin <<size, alignment, 1 if it has to be stored      *)
(*        separately, block, offset>>                                      *)
(*   bl   for every block <<size, alignment>> as it was asked for          *)
(* The blocks themselves can be anywhere where their alignment allows:     *)
(* whatever is required has to follow from the numbers alone.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Ptr == 8 \* a pointer: the owner of a mixin is found right before it

\* areas as <<block, from, to>>
Header(l) == <<l.hdr[1], l.hdr[2], l.hdr[2] + l.hdr[3]>>
Area(l, i) == LET m == l.mx[i] IN <<m[4], m[5] - Ptr, m[5] + m[1]>>
Apart(a, b) == a[1] # b[1] \/ a[3] <= b[2] \/ b[3] <= a[2]
Inside(l, a) == a[2] >= 0 /\ a[3] <= l.bl[a[1]][1]
Multiple(x, n) == n = 0 \/ x % n = 0

Mixins(l) == 1..Len(l.mx)
Sound(l) ==
    /\ Inside(l, Header(l)) /\ Multiple(l.hdr[2], Ptr) /\ Multiple(l.bl[l.hdr[1]][2], Ptr)
    /\ \A i \in Mixins(l) :
        LET m == l.mx[i] IN
        /\ Inside(l, Area(l, i))
        /\ Apart(Header(l), Area(l, i))
        /\ Multiple(m[5], m[2]) /\ Multiple(l.bl[m[4]][2], m[2])       \* aligned wherever the block is
        /\ Multiple(m[5], Ptr) /\ Multiple(l.bl[m[4]][2], Ptr)         \* and so is the owner reference
        /\ (m[3] = 1) <=> m[4] # l.hdr[1]                              \* separate if and only if it has to be
        /\ \A j \in Mixins(l) : i # j =>
            /\ Apart(Area(l, i), Area(l, j))
            /\ m[3] = 1 => l.mx[j][4] # m[4]                           \* in a block of its own
=============================================================================
