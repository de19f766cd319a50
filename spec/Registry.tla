------------------------------ MODULE Registry -------------------------------
(***************************************************************************)
(* Registration of features, mixins and type classes in domains.           *)
(*                                                                         *)
(* C is the static universe: which domains, features, mixins, rules and    *)
(* type classes the program defines and with what attributes.  Names are   *)
(* ranks in the byte-wise order of all names of the universe; rank 0 is    *)
(* the empty name.                                                         *)
(*                                                                         *)
(* The registries are the sparse arrays of the domain: slot k (1-based)    *)
(* holds the element with id k-1, or 0 when free.                          *)
(***************************************************************************)
EXTENDS SeqUtil

R(w, r, x, e, b) == [w |-> w, r |-> r, x |-> x, e |-> e, b |-> b]
Ok(w) == R(w, "ok", <<>>, <<>>, <<>>)
OkX(w, x) == R(w, "ok", x, <<>>, <<>>)
Err(w, c) == R(w, c, <<>>, <<>>, <<>>)

\* smallest free slot
FreeSlot(s) == LET i == Ix(s, 0) IN IF i = 0 THEN Len(s) + 1 ELSE i
PutSlot(s, i, x) == IF i > Len(s) THEN Append(s, x) ELSE [s EXCEPT ![i] = x]

NameTaken(s, NameOf(_), n) == \E i \in 1..Len(s) : s[i] # 0 /\ NameOf(s[i]) = n
ByName(s, NameOf(_), n) ==
    LET P(x) == x # 0 /\ NameOf(x) = n
        i == IxWhere(s, P)
    IN IF i = 0 THEN 0 ELSE s[i]

FName(C, f) == C.feats[f].n
MName(C, m) == C.mixs[m].n
TName(C, t) == C.tcs[t].n
RName(C, r) == C.rules[r].n
FindM(C, w, d, n) == LET N(m) == MName(C, m) IN ByName(w.dm[d].ms, N, n)
FindF(C, w, d, n) == LET N(f) == FName(C, f) IN ByName(w.dm[d].fs, N, n)
FindT(C, w, d, n) == LET N(t) == TName(C, t) IN ByName(w.dm[d].ts, N, n)

FeatsOf(C, m) == [i \in 1..Len(C.mixs[m].fs) |-> C.mixs[m].fs[i].f]

---------------------------------------------------------------------------
\* one feature, as part of regF or regM; result is the world or "no"
CanRegFeature(C, w, d, f) ==
    LET N(g) == FName(C, g) IN
    /\ w.fr[f].d = 0
    /\ C.dupF[d] \/ (FName(C, f) # 0 /\ ~NameTaken(w.dm[d].fs, N, FName(C, f)))
PutFeature(w, d, f) ==
    LET i == FreeSlot(w.dm[d].fs) IN
    [w EXCEPT !.dm[d].fs = PutSlot(@, i, f), !.fr[f] = [d |-> d, i |-> i - 1]]

RegFeature(C, w, d, f) ==
    IF CanRegFeature(C, w, d, f) THEN Ok(PutFeature(w, d, f)) ELSE Err(w, "domain")

UnregFeature(C, w, d, f) ==
    IF w.fr[f].d # d THEN Err(w, "domain")
    ELSE Ok([w EXCEPT !.dm[d].fs[w.fr[f].i + 1] = 0, !.fr[f] = [d |-> 0, i |-> -1]])

\* features registered with a mixin stay registered even if the mixin is refused
RECURSIVE RegFeats(_, _, _, _, _)
RegFeats(C, w, d, fs, i) ==
    IF i > Len(fs) THEN Ok(w)
    ELSE IF w.fr[fs[i]].d # 0 THEN RegFeats(C, w, d, fs, i + 1)
    ELSE IF CanRegFeature(C, w, d, fs[i]) THEN RegFeats(C, PutFeature(w, d, fs[i]), d, fs, i + 1)
    ELSE Err(w, "domain")

RegMixin(C, w, d, m) ==
    IF w.mr[m].d # 0 /\ w.mr[m].d # d THEN Err(w, "domain")
    ELSE
    LET rf == RegFeats(C, w, d, FeatsOf(C, m), 1)
        v == rf.w
        N(x) == MName(C, x)
        i == FreeSlot(v.dm[d].ms)
    IN  IF rf.r # "ok" THEN rf
        ELSE IF \/ v.mr[m].d # 0
                \/ ~C.dupM[d] /\ (MName(C, m) = 0 \/ NameTaken(v.dm[d].ms, N, MName(C, m)))
             THEN Err(v, "domain")
        ELSE Ok([v EXCEPT !.dm[d].ms = PutSlot(@, i, m), !.mr[m] = [d |-> d, i |-> i - 1]])

\* every type which contains the mixin goes with it
UnregMixin(C, w, d, m) ==
    IF w.mr[m].d # d THEN Err(w, "domain")
    ELSE
    LET Without(t) == ~Has(t.ms, m)
    IN Ok([w EXCEPT !.dm[d].ms[w.mr[m].i + 1] = 0,
                    !.dm[d].ty = SelectSeq(@, Without),
                    !.mr[m] = [d |-> 0, i |-> -1]])

RegTypeClass(C, w, d, t) ==
    LET N(x) == TName(C, x) IN
    IF TName(C, t) = 0 \/ C.tcs[t].k = "null" \/ NameTaken(w.dm[d].ts, N, TName(C, t))
    THEN Err(w, "domain")
    ELSE Ok([w EXCEPT !.dm[d].ts = PutSlot(@, FreeSlot(w.dm[d].ts), t)])

UnregTypeClass(C, w, d, t) ==
    LET i == Ix(w.dm[d].ts, t) IN
    IF i = 0 THEN Ok(w) ELSE Ok([w EXCEPT !.dm[d].ts[i] = 0])

---------------------------------------------------------------------------
(* what must be true of the registries in every state *)
SparseInv(sparse, reg, d) ==
    /\ \A k \in 1..Len(sparse) : sparse[k] # 0 => reg[sparse[k]] = [d |-> d, i |-> k - 1]
    /\ \A x \in 1..Len(reg) : reg[x].d = d => reg[x].i + 1 \in 1..Len(sparse) /\ sparse[reg[x].i + 1] = x
UniqueNames(sparse, NameOf(_)) ==
    \A i, j \in 1..Len(sparse) :
        sparse[i] # 0 => /\ NameOf(sparse[i]) # 0
                         /\ (sparse[j] # 0 /\ NameOf(sparse[i]) = NameOf(sparse[j])) => i = j
RegistryInv(C, w) ==
    \A d \in 1..Len(w.dm) :
        LET NM(m) == MName(C, m) NF(f) == FName(C, f) NT(t) == TName(C, t) IN
        /\ SparseInv(w.dm[d].fs, w.fr, d)
        /\ SparseInv(w.dm[d].ms, w.mr, d)
        /\ ~C.dupM[d] => UniqueNames(w.dm[d].ms, NM)
        /\ ~C.dupF[d] => UniqueNames(w.dm[d].fs, NF)
        /\ UniqueNames(w.dm[d].ts, NT)
        \* the features of a registered mixin are registered in the same domain
        /\ \A k \in 1..Len(w.dm[d].ms) : w.dm[d].ms[k] # 0 =>
              \A f \in Range0(FeatsOf(C, w.dm[d].ms[k])) : w.fr[f].d = d
=============================================================================
