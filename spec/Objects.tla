------------------------------- MODULE Objects -------------------------------
(***************************************************************************)
(* Objects: creation, mutation (also piecewise and failing), copying,      *)
(* moving, clearing, sealing, comparison.                                  *)
(*                                                                         *)
(* An object slot is [st: 0 unused | 1 living, d: domain, t: type token,   *)
(* al: allocator, se: sealed, vs: mixin values, as: mixin address tokens]. *)
(* The address token of a mixin changes exactly when its storage does.     *)
(*                                                                         *)
(* Effects on mixins are reported as events, in the order in which they    *)
(* must happen (e) or, where no order is promised, as a collection (b):    *)
(*   <<"i", m, v>> default construction    <<"ci", m, v>> copy construction*)
(*   <<"ca", m, v>> copy assignment        <<"mi", m, v>> move construction*)
(*   <<"ma", m, v>> move assignment        <<"d", m, v>> destruction       *)
(*   <<"fi", m, i, v>> construction by a given function, mixin index i     *)
(*   <<"fu", m, i, j, v>> update by a given function, indices new i, old j *)
(*                                                                         *)
(* A fault is [k: kind, m: which, h: how]: the m-th allocation fails (k =  *)
(* "al"), or function k of mixin m fails: h = "err" returns an error,      *)
(* "thr" throws.                                                           *)
(***************************************************************************)
EXTENDS Types

NoObj == [st |-> 0, d |-> 0, t |-> 0, al |-> 0, se |-> FALSE, vs |-> <<>>, as |-> <<>>]
NoFault == [k |-> "", m |-> 0, h |-> ""]
Val(C, m, v) == IF C.mixs[m].sz = 0 THEN 0 ELSE v

ObMs(w, o) == TyMs(w, w.ob[o].d, w.ob[o].t)
TypeNow(w, o) == [d |-> w.ob[o].d, t |-> w.ob[o].t]

BumpType(w, d, t, k) ==
    IF t = 0 THEN w ELSE [w EXCEPT !.dm[d].ty[TyIx(w, d, t)].n = @ + k]

Hits(fault, k, m) == fault.k = k /\ fault.m = m
FailClass(fault) == IF fault.h = "err" THEN "object" ELSE "user"

DestroyEv(C, ms, vs, S(_)) ==
    \* destruction in reverse order of those for which S(i)
    LET K(i) == S(i) /\ ~Lacks(C, ms[i], "d")
    IN MapS(Rev(SelectSeq(Idx(ms), K)), LAMBDA i : <<"d", ms[i], vs[i]>>)

---------------------------------------------------------------------------
(* A mutation in progress:                                                 *)
(*   old, tgt: mixin lists; ovs: values of the old mixins; nvs: values of  *)
(*   the new ones built so far (up to pos); r: "ok" or the error class;    *)
(*   end: "fin" or "rb" when it was ended by hand; x: what it answered     *)
Progress(oms, ovs, tms) ==
    [oms |-> oms, ovs |-> ovs, tms |-> tms, nvs |-> [i \in 1..Len(tms) |-> 0], pos |-> 0, e |-> <<>>, r |-> "ok", end |-> "", x |-> <<>>]
OldIx(p, i) == Ix(p.oms, p.tms[i])
IsNew(p, i) == OldIx(p, i) = 0
Running(p) == p.r = "ok" /\ p.pos < Len(p.tms)

\* the next mixin was constructed with value v / failed with class c
Built(p, ev, v) == [p EXCEPT !.pos = @ + 1, !.nvs[p.pos + 1] = v, !.e = Append(@, ev)]
Passed(p) == [p EXCEPT !.pos = @ + 1]
Failed(p, c) == [p EXCEPT !.r = c]

DefaultStep(C, p, fault) ==
    LET i == p.pos + 1 m == p.tms[i] IN
    IF ~IsNew(p, i) THEN Passed(p)
    ELSE IF Lacks(C, m, "i") THEN Failed(p, "object")
    ELSE IF Hits(fault, "i", m) THEN Failed(p, FailClass(fault))
    ELSE Built(p, <<"i", m, 0>>, 0)

RECURSIVE DefaultUpto(_, _, _, _)
DefaultUpto(C, p, fault, n) ==
    IF p.r # "ok" \/ p.pos >= n \/ p.pos >= Len(p.tms) THEN p
    ELSE DefaultUpto(C, DefaultStep(C, p, fault), fault, n)

\* construct or update the next mixin by given functions.
\* nv / uv: value given by the construct / update function; -1 throws; uv = -2 leaves as is;
\* the C functions can also return an error: -3
GivenFail(v) == v \in {-1, -3}
GivenClass(v) == IF v = -3 THEN "object" ELSE "user"
GivenStep(C, p, nv, uv) ==
    LET i == p.pos + 1 m == p.tms[i] j == OldIx(p, i) IN
    IF IsNew(p, i)
    THEN IF GivenFail(nv) THEN Failed(p, GivenClass(nv))
         ELSE Built(p, <<"fi", m, i - 1, Val(C, m, nv)>>, Val(C, m, nv))
    ELSE IF GivenFail(uv) THEN Failed(p, GivenClass(uv))
    ELSE IF uv = -2 THEN Passed(p)
    ELSE [Passed(p) EXCEPT !.ovs[j] = Val(C, m, uv), !.e = Append(@, <<"fu", m, i - 1, j - 1, Val(C, m, uv)>>)]

\* events of undoing: new mixins constructed so far, in reverse
UndoEv(C, p) ==
    LET built(i) == i <= p.pos /\ IsNew(p, i) IN DestroyEv(C, p.tms, p.nvs, built)

NumNewExternals(C, p) == LET P(i) == IsNew(p, i) /\ External(C, p.tms[i]) IN CountIf(Idx(p.tms), P)

\* values of the old mixins after a mutation which did not complete
WithOldValues(w, o, p) == [w EXCEPT !.ob[o].vs = p.ovs]

FinalEv(C, p) ==
    FlattenSeq([j \in 1..Len(p.oms) |->
        LET m == p.oms[j] v == p.ovs[j]
            dtor(x) == IF Lacks(C, m, "d") THEN <<>> ELSE <<<<"d", m, x>>>>
        IN IF ~Has(p.tms, m) THEN dtor(v)
           ELSE IF External(C, m) THEN <<>>
           ELSE <<<<"mi", m, v>>>> \o dtor(0)])

RECURSIVE NewAddr(_, _, _, _, _)
\* address tokens of the target's mixins: kept externals keep theirs
NewAddr(C, p, oas, i, next) ==
    IF i > Len(p.tms) THEN [as |-> <<>>, next |-> next]
    ELSE LET j == OldIx(p, i)
             kept == j # 0 /\ External(C, p.tms[i])
             rest == NewAddr(C, p, oas, i + 1, IF kept THEN next ELSE next + 1)
         IN [as |-> <<IF kept THEN oas[j] ELSE next>> \o rest.as, next |-> rest.next]

\* the mutation of object o to type [d, t] completes
Commit(C, w, o, tgt, p) ==
    LET ob == w.ob[o]
        final(i) == LET j == OldIx(p, i) IN IF j = 0 THEN p.nvs[i] ELSE p.ovs[j]
        na == NewAddr(C, p, ob.as, 1, w.na)
        w1 == BumpType(BumpType(w, ob.d, ob.t, -1), tgt.d, tgt.t, 1)
        w2 == [w1 EXCEPT !.ob[o] = [@ EXCEPT !.d = tgt.d, !.t = tgt.t,
                            !.vs = [i \in 1..Len(p.tms) |-> final(i)], !.as = na.as],
                         !.na = na.next]
    IN R(w2, "ok", p.x, p.e, FinalEv(C, p))

\* Perform a mutation whose steps are given by Steps(p) (default construction of the rest is
\* implied at the end). Nothing but the values of updated common mixins changes on failure.
Mutation(C, w, o, tgt, fault, Steps(_)) ==
    LET ob == w.ob[o]
        p0 == Progress(ObMs(w, o), ob.vs, TyMs(w, tgt.d, tgt.t))
        same == tgt = TypeNow(w, o)
    IN  IF ob.se THEN Err(w, "object")
        ELSE IF ~same /\ p0.tms # <<>> /\ fault.k = "al" /\ fault.m <= NumNewExternals(C, p0)
             THEN Err(w, "alloc")
        ELSE LET p1 == Steps(p0)
                 p2 == IF p1.r = "ok" /\ p1.end = "" THEN DefaultUpto(C, p1, fault, Len(p1.tms)) ELSE p1
             IN IF p2.end = "rb" THEN R(WithOldValues(w, o, p2), p2.r, p2.x, p2.e, <<>>)
                ELSE IF p2.end = "fin" THEN
                     IF same THEN R(WithOldValues(w, o, p2), p2.r, p2.x, p2.e, <<>>)
                     ELSE LET c == Commit(C, w, o, tgt, p2) IN [c EXCEPT !.r = p2.r]
                ELSE IF p2.r # "ok" THEN R(WithOldValues(w, o, p2), p2.r, <<>>, p2.e \o UndoEv(C, p2), <<>>)
                ELSE IF same THEN R(WithOldValues(w, o, p2), "ok", p2.x, p2.e, <<>>)
                ELSE Commit(C, w, o, tgt, p2)

NoSteps(p) == p

---------------------------------------------------------------------------
\* destroy all mixins of an object (whatever happens to the object next)
DropMixins(C, w, o) ==
    LET ob == w.ob[o]
        All(i) == TRUE
    IN R([BumpType(w, ob.d, ob.t, -1) EXCEPT !.ob[o].t = 0, !.ob[o].vs = <<>>, !.ob[o].as = <<>>],
         "ok", <<>>, DestroyEv(C, ObMs(w, o), ob.vs, All), <<>>)

NewEmpty(w, o, d, al) == Ok([w EXCEPT !.ob[o] = [NoObj EXCEPT !.st = 1, !.d = d, !.al = al]])

NewOfType(C, w, o, d, t, al, seal, fault) ==
    LET w0 == [w EXCEPT !.ob[o] = [NoObj EXCEPT !.st = 1, !.d = d, !.al = al]]
        r == IF t = 0 THEN Ok(w0) ELSE Mutation(C, w0, o, [d |-> d, t |-> t], fault, NoSteps)
    IN IF r.r # "ok" THEN [r EXCEPT !.w = w]
       ELSE [r EXCEPT !.w.ob[o].se = seal]

Destroy(C, w, o) == LET r == DropMixins(C, w, o) IN [r EXCEPT !.w.ob[o] = NoObj]

\* the content of object p goes to slot o (its mixins stay where they are)
Usurp(w, o, p) ==
    [w EXCEPT !.ob[o] = w.ob[p],
              !.ob[p] = [NoObj EXCEPT !.st = 1, !.d = w.ob[p].d, !.al = w.ob[p].al]]
MoveConstruct(w, o, p) == Ok(Usurp(w, o, p))
MoveAssign(C, w, o, p) ==
    IF o = p THEN Ok(w)
    ELSE IF w.ob[o].al # w.ob[p].al \/ w.ob[o].se THEN Err(w, "object")
    ELSE LET r == DropMixins(C, w, o) IN [r EXCEPT !.w = Usurp(r.w, o, p)]

Clear(C, w, o) == IF w.ob[o].se THEN Err(w, "object") ELSE DropMixins(C, w, o)

ResetType(C, w, o, tgt, fault) ==
    IF w.ob[o].se THEN Err(w, "object")
    ELSE IF tgt = TypeNow(w, o) THEN Ok(w)
    ELSE IF tgt.t = 0 THEN LET r == DropMixins(C, w, o) IN [r EXCEPT !.w.ob[o].d = tgt.d]
    ELSE Mutation(C, w, o, tgt, fault, NoSteps)

---------------------------------------------------------------------------
(* Copying *)
CopyStep(C, src, fault, p) ==
    \* src: values of the source, whose mixins are the target list
    LET i == p.pos + 1 m == p.tms[i] j == OldIx(p, i) v == src[i] IN
    IF IsNew(p, i)
    THEN IF Lacks(C, m, "ci") THEN Failed(p, "object")
         ELSE IF Hits(fault, "ci", m) THEN Failed(p, FailClass(fault))
         ELSE Built(p, <<"ci", m, v>>, v)
    ELSE IF Hits(fault, "ca", m) THEN Failed(p, FailClass(fault))
    ELSE [Passed(p) EXCEPT !.ovs[j] = v, !.e = Append(@, <<"ca", m, v>>)]
RECURSIVE CopyAll(_, _, _, _)
CopyAll(C, src, fault, p) ==
    IF ~Running(p) THEN p ELSE CopyAll(C, src, fault, CopyStep(C, src, fault, p))

CopyConstruct(C, w, o, p, al, fault) ==
    LET src == w.ob[p]
        w0 == [w EXCEPT !.ob[o] = [NoObj EXCEPT !.st = 1, !.d = src.d, !.al = al]]
        Steps(q) == CopyAll(C, src.vs, fault, q)
        r == IF src.t = 0 THEN Ok(w0) ELSE Mutation(C, w0, o, TypeNow(w, p), fault, Steps)
    IN IF r.r # "ok" THEN [r EXCEPT !.w = w] ELSE r

CopyFrom(C, w, o, p, fault) ==
    LET src == w.ob[p]
        sms == ObMs(w, p)
        mine == ObMs(w, o)
        Steps(q) == CopyAll(C, src.vs, fault, q)
    IN  IF src.t = 0
        THEN IF w.ob[o].se THEN Err(w, "object")
             ELSE LET r == DropMixins(C, w, o) IN [r EXCEPT !.w.ob[o].d = src.d]
        ELSE IF \E i \in 1..Len(sms) : Lacks(C, sms[i], IF Has(mine, sms[i]) THEN "ca" ELSE "ci")
             THEN Err(w, "object")
        ELSE Mutation(C, w, o, TypeNow(w, p), fault, Steps)

RECURSIVE CopyMatching(_, _, _, _, _, _, _)
CopyMatching(C, w, o, p, fault, i, ev) ==
    LET sms == ObMs(w, p) IN
    IF i > Len(sms) THEN R(w, "ok", <<>>, ev, <<>>)
    ELSE LET j == Ix(ObMs(w, o), sms[i]) v == w.ob[p].vs[i] IN
         IF j = 0 THEN CopyMatching(C, w, o, p, fault, i + 1, ev)
         ELSE IF Hits(fault, "ca", sms[i]) THEN R(w, FailClass(fault), <<>>, ev, <<>>)
         ELSE CopyMatching(C, [w EXCEPT !.ob[o].vs[j] = v], o, p, fault, i + 1, Append(ev, <<"ca", sms[i], v>>))
CopyMatchingFrom(C, w, o, p, fault) ==
    LET sms == ObMs(w, p) mine == ObMs(w, o) IN
    IF \E i \in 1..Len(sms) : Has(mine, sms[i]) /\ Lacks(C, sms[i], "ca") THEN Err(w, "object")
    ELSE CopyMatching(C, w, o, p, fault, 1, <<>>)

RECURSIVE MoveMatching(_, _, _, _, _, _)
MoveMatching(C, w, o, p, i, ev) ==
    LET sms == ObMs(w, p) IN
    IF i > Len(sms) THEN R(w, "ok", <<>>, ev, <<>>)
    ELSE LET m == sms[i] j == Ix(ObMs(w, o), m) v == w.ob[p].vs[i]
             w1 == [w EXCEPT !.ob[o].vs[j] = v, !.ob[p].vs[i] = 0]
             e1 == IF ~Lacks(C, m, "ma") THEN <<<<"ma", m, v>>>>
                   ELSE (IF Lacks(C, m, "d") THEN <<>> ELSE <<<<"d", m, w.ob[o].vs[j]>>>>) \o <<<<"mi", m, v>>>>
         IN IF j = 0 THEN MoveMatching(C, w, o, p, i + 1, ev)
            ELSE MoveMatching(C, w1, o, p, i + 1, ev \o e1)
MoveMatchingFrom(C, w, o, p, fallback) ==
    LET sms == ObMs(w, p) mine == ObMs(w, o)
        stuck(m) == Lacks(C, m, "ma") /\ ~(fallback /\ ~Lacks(C, m, "mi"))
    IN IF \E i \in 1..Len(sms) : Has(mine, sms[i]) /\ stuck(sms[i]) THEN Err(w, "object")
       ELSE MoveMatching(C, w, o, p, 1, <<>>)

---------------------------------------------------------------------------
(* Comparing *)
Equals(C, w, o, p) ==
    \/ o = p
    \/ /\ TypeNow(w, o) = TypeNow(w, p)
       /\ LET ms == ObMs(w, o) IN
          \A i \in 1..Len(ms) : /\ ~(Lacks(C, ms[i], "eq") /\ Lacks(C, ms[i], "cm"))
                                /\ w.ob[o].vs[i] = w.ob[p].vs[i]
RECURSIVE CmpVals(_, _, _, _, _)
CmpVals(C, ms, a, b, i) ==
    IF i > Len(ms) THEN [r |-> "ok", x |-> 0]
    ELSE IF Lacks(C, ms[i], "cm") THEN [r |-> "object", x |-> 0]
    ELSE IF a[i] # b[i] THEN [r |-> "ok", x |-> Sgn(a[i] - b[i])]
    ELSE CmpVals(C, ms, a, b, i + 1)
Compare(C, w, o, p) ==
    IF o = p THEN OkX(w, 0)
    ELSE LET c == CmpTypes(C, w, w.ob[o].d, w.ob[o].t, w.ob[p].d, w.ob[p].t) IN
    IF c # 0 THEN OkX(w, c)
    ELSE LET v == CmpVals(C, ObMs(w, o), w.ob[o].vs, w.ob[p].vs, 1) IN
         IF v.r = "ok" THEN OkX(w, v.x) ELSE Err(w, v.r)

---------------------------------------------------------------------------
(* Piecewise mutation *)
\* s: [k, i, nv, uv]; index i is 0-based as in the interface.
\* It may be ended by hand: finalizing ("fin") has an effect when it is complete, and no failure
\* after that takes it back; after it was rolled back ("rb") it must not be continued.
Complete(p) == p.end # "rb" /\ p.pos >= Len(p.tms)
EndByHand(C, p, k) ==
    IF p.end # "" THEN p
    ELSE IF k = "rb" THEN [p EXCEPT !.end = "rb", !.e = @ \o UndoEv(C, p)]
    ELSE IF Complete(p) THEN [p EXCEPT !.end = "fin"] ELSE p
PieceStep(C, p, fault, s) ==
    LET n == Len(p.tms) IN
    IF p.r # "ok" THEN p
    ELSE CASE s.k = "at" ->
                IF s.i < p.pos \/ s.i >= n THEN Failed(p, "object")
                ELSE LET q == DefaultUpto(C, p, fault, s.i) IN
                     IF q.r # "ok" THEN q ELSE GivenStep(C, q, s.nv, s.uv)
           [] s.k = "next" -> IF p.pos >= n THEN p ELSE GivenStep(C, p, s.nv, s.uv)
           [] s.k = "def" -> DefaultUpto(C, p, fault, s.i)
           [] s.k = "thr" -> Failed(p, "user")
           [] s.k \in {"fin", "rb"} -> EndByHand(C, p, s.k)
           [] OTHER -> p
RECURSIVE PieceEach(_, _, _, _, _)
PieceEach(C, p, s, upto, fuel) ==
    IF p.r # "ok" \/ p.pos >= Len(p.tms) \/ p.pos >= upto THEN p
    ELSE PieceEach(C, GivenStep(C, p, s.nv, s.uv), s, upto, fuel)
RECURSIVE PieceSteps(_, _, _, _, _)
PieceSteps(C, p, fault, ss, i) ==
    IF i > Len(ss) \/ p.r # "ok" THEN p
    ELSE LET s == ss[i]
             q == IF s.k = "each" THEN PieceEach(C, p, s, s.i, 0) ELSE PieceStep(C, p, fault, s)
         IN PieceSteps(C, IF q.r = "ok" THEN [q EXCEPT !.x = Append(@, Bool(Complete(q)))] ELSE q, fault, ss, i + 1)

Piecewise(C, w, o, tgt, fault, ss) ==
    LET Steps(p) == PieceSteps(C, p, fault, ss, 1)
        r == Mutation(C, w, o, tgt, fault, Steps)
    IN IF r.r # "ok" THEN [r EXCEPT !.x = <<>>] ELSE r

---------------------------------------------------------------------------
(* Mutations with initializers for some of the new mixins (and, through C, *)
(* updates for some of the common ones): iv[m] and uv[m] are the values    *)
(* they give, -9 when there is none for mixin m; tp: the mixins which are  *)
(* constructed from arguments and do not get to know their index.          *)
RECURSIVE InitSteps(_, _, _, _, _, _)
InitSteps(C, p, fault, iv, uv, tp) ==
    IF ~Running(p) THEN p
    ELSE LET m == p.tms[p.pos + 1]
             new == IsNew(p, p.pos + 1)
             given == IF new THEN iv[m] # -9 ELSE uv[m] # -9
             step == IF ~given THEN DefaultStep(C, p, fault) ELSE GivenStep(C, p, iv[m], uv[m])
         IN InitSteps(C,
                IF given /\ new /\ m \in tp /\ step.r = "ok"
                THEN [step EXCEPT !.e[Len(step.e)][3] = -1] ELSE step,
                fault, iv, uv, tp)

---------------------------------------------------------------------------
ObjectsInv(C, w) ==
    /\ \A o \in 1..Len(w.ob) :
         LET ob == w.ob[o] IN
         ob.st = 1 =>
           /\ TyLive(w, ob.d, ob.t)
           /\ Len(ob.vs) = Len(ObMs(w, o)) /\ Len(ob.as) = Len(ob.vs)
    \* object counts are exact
    /\ \A d \in 1..Len(w.dm) : \A i \in 1..Len(w.dm[d].ty) :
         w.dm[d].ty[i].n =
           Cardinality({o \in 1..Len(w.ob) : w.ob[o].st = 1 /\ w.ob[o].d = d /\ w.ob[o].t = w.dm[d].ty[i].t})
    \* no two mixins share storage
    /\ \A o, p \in 1..Len(w.ob) : \A i \in 1..Len(w.ob[o].as) : \A j \in 1..Len(w.ob[p].as) :
         (o # p \/ i # j) => w.ob[o].as[i] # w.ob[p].as[j]
=============================================================================
