------------------------------- MODULE Steps --------------------------------
(***************************************************************************)
(* What must be true of every single step, whatever the history: the       *)
(* listed properties as conditions on (world before, operation, result).   *)
(* The operations are defined in World by what they do; here is stated,    *)
(* independently of that, what the user relies on.                         *)
(***************************************************************************)
EXTENDS World

ObjOps == {"newE", "newT", "del", "clear", "seal", "mv", "massign", "copy", "copyFrom", "copyMatch",
           "moveMatch", "equals", "compare", "reset", "set", "mutate", "gradual", "mutateTo", "piece", "call"}
Updating == {"copyFrom", "copyMatch", "piece", "mutateTo"}
Frame(ob) == <<ob.st, ob.d, ob.t, ob.al, ob.se, ob.as>>

\* C01: whoever is registered keeps id and name; nobody gets in or out who was not meant to
Registry1(C, w, op, y) ==
    /\ \A m \in 1..Len(C.mixs) :
         w.mr[m] # y.w.mr[m] =>
            \/ op.o = "regM" /\ op.m = m /\ w.mr[m].d = 0 /\ y.r = "ok"
               /\ \A k \in 1..y.w.mr[m].i : w.dm[op.d].ms[k] # 0
            \/ op.o = "unregM" /\ op.m = m /\ w.mr[m].d = op.d /\ y.w.mr[m].d = 0
    /\ \A f \in 1..Len(C.feats) :
         w.fr[f] # y.w.fr[f] =>
            \/ op.o = "regF" /\ op.f = f /\ w.fr[f].d = 0
            \/ op.o = "regM" /\ Has(FeatsOf(C, op.m), f) /\ w.fr[f].d = 0
            \/ op.o = "unregF" /\ op.f = f /\ w.fr[f].d = op.d /\ y.w.fr[f].d = 0
    /\ \A d \in 1..Len(w.dm) :
         (w.dm[d].ts # y.w.dm[d].ts => op.o \in {"regT", "unregT"} /\ op.d = d)
         /\ (w.dm[d].rs # y.w.dm[d].rs => op.o \in {"addR", "remR"} /\ op.d = d)
    /\ (y.r # "ok" /\ op.o \in {"regF", "unregF", "unregM", "regT", "addR"}) => y.w = w
\* C04, C06: types come only from requests and go only with their mixins or when collected
TypeLife(C, w, op, y) ==
    \A d \in 1..Len(w.dm) :
        LET a == w.dm[d].ty b == y.w.dm[d].ty
            kept(x) == \E i \in 1..Len(b) : b[i].t = x.t /\ b[i].ms = x.ms
            here == op.o \in {"gc", "unregM"} /\ op.d = d
        IN /\ \A i \in 1..Len(a) :
                 kept(a[i]) = ~(here /\ \/ op.o = "gc" /\ a[i].n = 0
                                        \/ op.o = "unregM" /\ w.mr[op.m].d = d /\ Has(a[i].ms, op.m))
           /\ \A i \in 1..Len(b) : b[i].t <= w.dm[d].nt => TyIx(w, d, b[i].t) # 0
           /\ Len(b) <= Len(a) + 1
           /\ (y.r # "ok" /\ op.o = "getT") => b = a
\* C03, C04, C05: what a request is answered
Answer1(C, w, op, y) ==
    (op.o = "getT" /\ op.md = op.d) =>
        LET a == ApplyBuilt(C, w, op.d, op.ms) IN
        /\ AnswerInv(C, w, op.d, op.ms, y)
        /\ y.r = "ok" =>
             LET ms == TyMs(y.w, op.d, y.x) IN
             /\ NoDups(ms) /\ \A i \in 1..Len(ms) : w.mr[ms[i]].d = op.d
             /\ \A i \in 1..Len(ms) : C.mixs[ms[i]].dep =>
                   \E k \in 1..Len(w.dm[op.d].rs) :
                      LET r == C.rules[w.dm[op.d].rs[k].r] IN ms[i] \in {r.a, r.b}
             /\ C.canon[op.d] => \A i \in 1..Len(ms) - 1 : MixinLess(C, w, ms[i], ms[i + 1])
        /\ (a.ok /\ y.r # "ok") =>
             \/ ~NoDups(a.l)
             \/ \E i \in 1..Len(a.l) : w.mr[a.l[i]].d # op.d
             \/ Clash(C, a.l)
\* C10: failures leave everything in place (an exception after apply comes too late)
Ended(op, k) == \E i \in 1..Len(op.ss) : op.ss[i].k = k
Atomic(C, w, op, y) ==
    (op.o \in ObjOps /\ y.r # "ok" /\ ~(op.o = "gradual" /\ op.end = "applythrow" /\ y.r = "user")
     /\ ~(op.o = "piece" /\ Ended(op, "fin"))) =>
        \A o \in 1..Len(w.ob) :
            /\ Frame(y.w.ob[o]) = Frame(w.ob[o])
            /\ (o # op.ob \/ op.o \notin Updating) => y.w.ob[o].vs = w.ob[o].vs
\* C11: mixins alive after = alive before + constructed - destroyed, for each kind of mixin
Kind(ev, K, m) == LET P(x) == x[1] \in K /\ x[2] = m IN CountIf(ev, P)
Alive(w, m) == Cardinality({o \in 1..Len(w.ob) : w.ob[o].st = 1 /\ Has(ObMs(w, o), m)})
Balance(C, w, op, y) ==
    \A m \in 1..Len(C.mixs) : ~Lacks(C, m, "d") =>
        Alive(y.w, m) - Alive(w, m) =
            Kind(y.e, {"i", "ci", "fi", "mi"}, m) + Kind(y.b, {"mi"}, m) - Kind(y.e, {"d"}, m) - Kind(y.b, {"d"}, m)
\* C12: what a mutation makes of an object
Kept(C, w, op, y) ==
    (op.o \in {"reset", "mutate", "gradual", "mutateTo", "piece", "copyFrom"} /\ y.r = "ok") =>
        LET o == op.ob
            a == ObMs(w, o) b == ObMs(y.w, o)
            x == w.ob[o] z == y.w.ob[o]
        IN /\ (x.d = z.d /\ x.t = z.t) => z.as = x.as
           /\ z.al = x.al /\ z.se = x.se
           /\ \A j \in 1..Len(b) :
                LET i == Ix(a, b[j]) IN
                i # 0 => /\ (op.o \notin Updating => z.vs[j] = x.vs[i])
                         /\ (External(C, b[j]) => z.as[j] = x.as[i])
           /\ (op.o \in {"reset", "mutateTo"} \/ (op.o = "piece" /\ ~Ended(op, "rb"))) => z.d = op.d /\ z.t = op.t
           /\ op.o = "copyFrom" => z.t = w.ob[op.src].t /\ z.vs = w.ob[op.src].vs
\* C13, C14
Transfer(C, w, op, y) ==
    /\ (op.o = "copy" /\ y.r = "ok") =>
          LET a == w.ob[op.src] b == y.w.ob[op.ob] IN
          /\ y.w.ob[op.src] = a /\ b.d = a.d /\ b.t = a.t /\ b.vs = a.vs /\ ~b.se /\ b.al = op.al
          /\ Range0(a.as) \cap Range0(b.as) = {}
    /\ (op.o \in {"mv", "massign"} /\ y.r = "ok" /\ op.ob # op.src) =>
          /\ y.w.ob[op.ob] = w.ob[op.src]
          /\ y.w.ob[op.src].t = 0 /\ ~y.w.ob[op.src].se
    /\ (op.o \in ObjOps) => \A o \in 1..Len(w.ob) :
          (w.ob[o].st = 1 /\ w.ob[o].se /\ ~(op.o = "del" /\ op.ob = o) /\ ~(op.o \in {"mv", "massign"} /\ op.src = o))
             => Frame(y.w.ob[o]) = Frame(w.ob[o])
    \* nobody else is touched
    /\ \A o \in 1..Len(w.ob) :
          y.w.ob[o] # w.ob[o] => op.o \in ObjOps /\ (o = op.ob \/ (op.o \in {"mv", "massign", "moveMatch"} /\ o = op.src))
\* C15
Order(C, w, op, y) ==
    /\ op.o = "tcmp" => StrictTotalOrder(CmpMatrix(C, w))
    /\ op.o \in {"compare", "equals"} =>
         LET ab == Compare(C, w, op.ob, op.src) ba == Compare(C, w, op.src, op.ob) IN
         /\ ab.r = ba.r /\ (ab.r = "ok" => ab.x = -ba.x)
         /\ (Equals(C, w, op.ob, op.src) => (ab.r # "ok" \/ ab.x = 0))
         /\ (ab.r = "ok" /\ ab.x = 0 /\ ObMs(w, op.ob) # <<>>) => Equals(C, w, op.ob, op.src)
\* C08: who runs
Delivery(C, w, op, y) ==
    (op.o = "call" /\ y.r = "ok" /\ op.cb = 0 /\ \A m \in 1..Len(op.beh) : op.beh[m] = "ret") =>
        LET ms == ObMs(w, op.ob)
            p == Providers(C, ms, op.f)
            n == TopCount(p)
        IN /\ p # <<>> => Len(y.e) = (IF C.feats[op.f].mc THEN n ELSE 1)
           /\ p # <<>> => y.x = Answer(p[1].m, op.arg)
           /\ \A i \in 1..Len(y.e) : y.e[i][1] = "p" => y.e[i][2] = p[Len(y.e) + 1 - i].m
           /\ \A m \in Range0(ms) : \A k \in 1..Len(C.mixs[m].fs) :
                (C.mixs[m].fs[k].f = op.f) => \E i \in 1..n : C.mixs[m].fs[k].b <= p[i].bid

\* C27: what a request which ran out of memory may leave behind (nothing of what it was asked for:
\* features on the way to a mixin, types on the way to an object), and that it does not matter
WithTypesOf(w, v) ==
    [w EXCEPT !.dm = [d \in 1..Len(@) |->
        [@[d] EXCEPT !.nt = v.dm[d].nt,
                     !.ty = [i \in 1..Len(v.dm[d].ty) |->
                                LET t == v.dm[d].ty[i]
                                    k == TyIx(w, d, t.t)
                                IN [t EXCEPT !.n = IF k = 0 THEN 0 ELSE w.dm[d].ty[k].n]]]]]
Leftovers(C, w, op, y) ==
    IF op.o = "regM"
    THEN IF w.mr[op.m].d # 0 THEN {w}
         ELSE {RegFeats(C, w, op.d, SubSeq(FeatsOf(C, op.m), 1, k), 1).w : k \in 0..Len(C.mixs[op.m].fs)}
    ELSE IF op.o \in {"getT", "tm", "mutate", "mutateTo", "gradual"} THEN {w, WithTypesOf(w, y.w)}
    ELSE {w}
Retry(C, w, op, y) ==
    "rt" \in DOMAIN op => \A v \in Leftovers(C, w, op, y) : Do(C, v, op) = y

\* names of the conditions which do not hold (none, it is to be hoped)
Violated(C, w, op, y) ==
    LET all == {<<"Registry", RegistryInv(C, y.w) /\ Registry1(C, w, op, y)>>, <<"Rules", RulesInv(C, y.w)>>,
                <<"Types", TypesInv(C, y.w)>>, <<"Objects", ObjectsInv(C, y.w)>>,
                <<"TypeLife", TypeLife(C, w, op, y)>>, <<"Answer", Answer1(C, w, op, y)>>,
                <<"Atomic", Atomic(C, w, op, y)>>, <<"Balance", Balance(C, w, op, y)>>, <<"Kept", Kept(C, w, op, y)>>,
                <<"Transfer", Transfer(C, w, op, y)>>, <<"Order", Order(C, w, op, y)>>, <<"Delivery", Delivery(C, w, op, y)>>,
                <<"Retry", Retry(C, w, op, y)>>}
    IN {a[1] : a \in {b \in all : ~b[2]}}
=============================================================================
