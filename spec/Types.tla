-------------------------------- MODULE Types --------------------------------
(***************************************************************************)
(* Types: at most one per mixin sequence, with feature table and layout.   *)
(* A type is [t: token, ms: mixins, n: number of living objects].  Tokens  *)
(* are given out per domain in order of creation; token 0 is the empty     *)
(* type, which always exists.                                              *)
(***************************************************************************)
EXTENDS Rules

TyIx(w, d, t) == LET P(x) == x.t = t IN IxWhere(w.dm[d].ty, P)
TyMs(w, d, t) == IF t = 0 THEN <<>> ELSE w.dm[d].ty[TyIx(w, d, t)].ms
TyLive(w, d, t) == t = 0 \/ TyIx(w, d, t) # 0
FindTy(w, d, ms) == LET P(x) == x.ms = ms IN IxWhere(w.dm[d].ty, P)

---------------------------------------------------------------------------
(* Feature table *)
ProvLess(a, b) ==
    IF a.bid # b.bid THEN a.bid > b.bid
    ELSE IF a.prio # b.prio THEN a.prio < b.prio
    ELSE a.i > b.i

RECURSIVE ProvFrom(_, _, _, _)
ProvFrom(C, ms, f, i) ==
    IF i > Len(ms) THEN <<>>
    ELSE LET P(x) == x.f = f
             own == SelectSeq(C.mixs[ms[i]].fs, P)
         IN [k \in 1..Len(own) |-> [i |-> i, m |-> ms[i], bid |-> own[k].b, prio |-> own[k].p]]
            \o ProvFrom(C, ms, f, i + 1)
\* all providers of feature f, best first
Providers(C, ms, f) == SortBy(ProvFrom(C, ms, f, 1), ProvLess)
TopCount(p) == IF p = <<>> THEN 0 ELSE LET P(x) == x.bid = p[1].bid IN CountIf(p, P)

ImplementsStrong(C, ms, f) == \E i \in 1..Len(ms) : Has(FeatsOf(C, ms[i]), f)
Implements(C, ms, f) == C.feats[f].df \/ ImplementsStrong(C, ms, f)

ProvIx(p, m) == LET P(x) == x.m = m IN IxWhere(p, P)
NextImpl(p, m) ==
    LET i == ProvIx(p, m) IN IF i = 0 \/ i = Len(p) THEN 0 ELSE p[i + 1].m
NextSet(p, m) ==
    LET i == ProvIx(p, m) IN
    IF i = 0 THEN <<>>
    ELSE LET lower(x) == x.bid < p[i].bid
             rest == SelectSeq(p, lower)
         IN IF rest = <<>> THEN <<>>
            ELSE LET next(x) == x.bid = rest[1].bid IN SelectSeq(rest, next)

Clash(C, ms) ==
    \E f \in 1..Len(C.feats) :
        /\ ~C.feats[f].cl
        /\ LET p == Providers(C, ms, f) IN
           \E i \in 1..Len(p) - 1 : p[i].bid = p[i + 1].bid /\ p[i].prio = p[i + 1].prio

---------------------------------------------------------------------------
(* Object buffer layout.  All quantities in bytes. *)
PtrSize == 8
MixinDataSize == 16
External(C, m) == LET x == C.mixs[m] IN x.fe \/ x.al # 0 \/ Has(x.no, "mi")
CeilTo(x, a) == ((x + a - 1) \div a) * a
RECURSIVE LayoutFrom(_, _, _, _, _, _)
LayoutFrom(C, ms, i, size, al, offs) ==
    IF i > Len(ms) THEN [size |-> size, al |-> al, offs |-> offs]
    ELSE IF External(C, ms[i]) THEN LayoutFrom(C, ms, i + 1, size, al, Append(offs, 0))
    ELSE LET ma == Max2(C.mixs[ms[i]].ag, PtrSize)
             pad == CeilTo(size, ma) - size
             off == size + (IF pad < PtrSize THEN pad + ma ELSE pad)
         IN LayoutFrom(C, ms, i + 1, off + C.mixs[ms[i]].sz, Max2(al, ma), Append(offs, off))
Layout(C, ms) == LayoutFrom(C, ms, 1, Len(ms) * MixinDataSize, PtrSize, <<>>)

\* What any layout has to satisfy, whoever computed it: L = [size, al, offs]
SoundLayout(C, ms, L) ==
    LET in(i) == ~External(C, ms[i])
        sz(i) == C.mixs[ms[i]].sz
        ag(i) == C.mixs[ms[i]].ag
    IN /\ Len(L.offs) = Len(ms)
       /\ L.al >= PtrSize /\ L.al % PtrSize = 0
       /\ \A i \in 1..Len(ms) :
            IF ~in(i) THEN L.offs[i] = 0
            ELSE /\ ag(i) = 0 \/ (L.offs[i] % ag(i) = 0 /\ L.al % ag(i) = 0)
                 /\ L.offs[i] % PtrSize = 0           \* the owner reference in front of it is aligned
                 /\ L.offs[i] - PtrSize >= Len(ms) * MixinDataSize
                 /\ L.offs[i] + sz(i) <= L.size
                 /\ \A j \in 1..Len(ms) : (j # i /\ in(j)) =>
                      \/ L.offs[i] + sz(i) <= L.offs[j] - PtrSize
                      \/ L.offs[j] + sz(j) <= L.offs[i] - PtrSize

---------------------------------------------------------------------------
(* Requests *)
Unregistered(w, ms) == \E i \in 1..Len(ms) : w.mr[ms[i]].d = 0
Foreign(w, d, ms) == \E i \in 1..Len(ms) : w.mr[ms[i]].d \notin {0, d}

\* class of the error with which a new composition is refused, or "ok".
\* When it is wrong in more than one way, any of the errors may be reported.
Refusal(C, w, d, ms) ==
    LET ty == Unregistered(w, ms) \/ ~NoDups(ms)
        fo == Foreign(w, d, ms)
    IN IF ty /\ fo THEN "any" ELSE IF ty THEN "type" ELSE IF fo THEN "domain"
       ELSE IF Clash(C, ms) THEN "type" ELSE "ok"

Materialize(C, w, d, ms) ==
    IF ms = <<>> THEN OkX(w, 0)
    ELSE LET i == FindTy(w, d, ms) IN
    IF i # 0 THEN OkX(w, w.dm[d].ty[i].t)
    ELSE LET r == Refusal(C, w, d, ms) IN
    IF r # "ok" THEN Err(w, r)
    ELSE LET t == w.dm[d].nt + 1 IN
         OkX([w EXCEPT !.dm[d].ty = Append(@, [t |-> t, ms |-> ms, n |-> 0]), !.dm[d].nt = t], t)

GetType(C, w, d, req) ==
    LET a == ApplyBuilt(C, w, d, req) IN
    IF ~a.ok THEN Err(w, a.c) ELSE Materialize(C, w, d, a.l)

CollectTypes(w, d) ==
    LET Used(t) == t.n > 0 IN Ok([w EXCEPT !.dm[d].ty = SelectSeq(@, Used)])

---------------------------------------------------------------------------
(* Comparison and traits *)
RECURSIVE CmpMsFrom(_, _, _, _, _)
CmpMsFrom(C, w, a, b, i) ==
    IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
    ELSE IF i > Len(b) THEN 1
    ELSE IF a[i] = b[i] THEN CmpMsFrom(C, w, a, b, i + 1)
    ELSE IF MixinLess(C, w, a[i], b[i]) THEN -1 ELSE 1
CmpTypes(C, w, d1, t1, d2, t2) ==
    IF d1 # d2 THEN (IF d1 < d2 THEN -1 ELSE 1)
    ELSE CmpMsFrom(C, w, TyMs(w, d1, t1), TyMs(w, d2, t2), 1)

Lacks(C, m, fn) == Has(C.mixs[m].no, fn)
AllHave(C, ms, fn) == \A i \in 1..Len(ms) : ~Lacks(C, ms[i], fn)

MatchesClass(C, t, ms) ==
    LET c == C.tcs[t] IN
    CASE c.k = "has" -> Has(ms, c.a)
      [] c.k = "num" -> Len(ms) >= c.a
      [] c.k = "impl" -> ImplementsStrong(C, ms, c.a)
      [] OTHER -> FALSE

---------------------------------------------------------------------------
TypesInv(C, w) ==
    \A d \in 1..Len(w.dm) :
        LET ty == w.dm[d].ty IN
        /\ \A i, j \in 1..Len(ty) : i # j => ty[i].ms # ty[j].ms /\ ty[i].t # ty[j].t
        /\ \A i \in 1..Len(ty) :
             /\ ty[i].ms # <<>> /\ NoDups(ty[i].ms)
             /\ ~Unregistered(w, ty[i].ms) /\ ~Foreign(w, d, ty[i].ms)
             /\ ~Clash(C, ty[i].ms)
             /\ SoundLayout(C, ty[i].ms, Layout(C, ty[i].ms))
\* an answer is what the rules of this moment make of the request (checked on every request)
AnswerInv(C, w, d, req, ans) ==
    ans.r = "ok" =>
        LET ms == TyMs(ans.w, d, ans.x) IN
        /\ Deviates(C, w, d, req) \/ Settled(C, w, d, ms)
        /\ ~Deviates(C, w, d, req) => ApplyIdeal(C, w, d, req).l = ms
=============================================================================
