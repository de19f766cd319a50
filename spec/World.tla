-------------------------------- MODULE World --------------------------------
(***************************************************************************)
(* The whole of the library as one transition system: which operations     *)
(* the program may perform (Pre), what they do (Do), what can be observed  *)
(* (Obs) and what must always be true (WorldInv).                          *)
(*                                                                         *)
(* An operation is a record with the field o naming it, further fields as  *)
(* it needs, and via = "p" (C++ interface) or "c" (C interface).           *)
(***************************************************************************)
EXTENDS Messages

W0(C, nobs) ==
    [dm |-> [d \in 1..Len(C.canon) |-> [fs |-> <<>>, ms |-> <<>>, ts |-> <<>>, rs |-> <<>>, ty |-> <<>>, nt |-> 0]],
     fr |-> [f \in 1..Len(C.feats) |-> [d |-> 0, i |-> -1]],
     mr |-> [m \in 1..Len(C.mixs) |-> [d |-> 0, i |-> -1]],
     ob |-> [o \in 1..nobs |-> NoObj],
     na |-> 1]

WorldInv(C, w) == RegistryInv(C, w) /\ RulesInv(C, w) /\ TypesInv(C, w) /\ ObjectsInv(C, w)

---------------------------------------------------------------------------
(* Lists of mixins being edited (type mutations) *)
\* positions of mixins named n
Named(C, l, n) == {i \in 1..Len(l) : MName(C, l[i]) = n}
FirstNamed(C, l, n) ==
    LET K == Named(C, l, n) IN IF K = {} THEN 0 ELSE CHOOSE i \in K : \A j \in K : i <= j
DedupLast(l) ==
    LET keep(i) == \A j \in 1..Len(l) : (j > i) => l[j] # l[i]
    IN MapS(SelectSeq(Idx(l), keep), LAMBDA i : l[i])

\* one editing step s = [k, m, n]: by info m when n = -1, otherwise by name n.
\* x is what it reports: an info or 1 / 0 for found or not, -1 when it is refused
Edit(C, w, d, l, s) ==
    LET byname == s.n # -1
        reg == FindM(C, w, d, s.n)
        at == IF byname THEN FirstNamed(C, l, s.n) ELSE Ix(l, s.m)
        Y(x, nl) == [x |-> x, l |-> nl]
        info == IF at = 0 THEN 0 ELSE IF byname THEN l[at] ELSE 1
        append(miss) == IF ~byname THEN Y(1, Append(l, s.m))
                        ELSE IF reg = 0 THEN Y(miss, l) ELSE Y(reg, Append(l, reg))
    IN CASE s.k = "add"   -> append(-1)
         [] s.k = "sadd"  -> append(0)
         [] s.k = "addl"  -> IF at # 0 THEN Y(0, l) ELSE append(-1)
         [] s.k = "saddl" -> IF at # 0 THEN Y(0, l) ELSE append(0)
         [] s.k = "rem"   -> IF at = 0 THEN Y(0, l) ELSE Y(info, DropAt(l, at))
         [] s.k = "back"  -> IF at = 0 THEN Y(-1, l) ELSE Y(info, Append(DropAt(l, at), l[at]))
         [] s.k = "dedup" -> Y(1, DedupLast(l))
         [] s.k = "what"  -> Y(-1, l)           \* no operation at all: refused
         [] s.k = "has"   -> Y(info, l)
         [] s.k = "impl"  -> Y(IF Implements(C, l, s.m) THEN 1 ELSE 0, l)
         [] s.k = "imps"  -> Y(IF ImplementsStrong(C, l, s.m) THEN 1 ELSE 0, l)
         [] s.k = "impn"  ->
               LET K == {f \in 1..Len(C.feats) : FName(C, f) = s.n /\ ImplementsStrong(C, l, f)}
               IN Y(IF K = {} THEN 0 ELSE CHOOSE f \in K : TRUE, l)
         [] OTHER -> Y(0, l)
\* x: what each step reports; r: whether one was refused (when stop, later steps are not made)
RECURSIVE Edits(_, _, _, _, _, _, _)
Edits(C, w, d, l, ss, stop, i) ==
    IF i > Len(ss) THEN [xs |-> <<>>, l |-> l, bad |-> FALSE]
    ELSE LET y == Edit(C, w, d, l, ss[i]) IN
         IF y.x = -1 /\ stop THEN [xs |-> <<-1>>, l |-> l, bad |-> TRUE]
         ELSE LET z == Edits(C, w, d, y.l, ss, stop, i + 1)
              IN [xs |-> <<y.x>> \o z.xs, l |-> z.l, bad |-> z.bad \/ y.x = -1]
\* a name which stands for more than one mixin leaves it open which one is meant
Clear1(C, n) == n = -1 \/ Cardinality({m \in 1..Len(C.mixs) : MName(C, m) = n}) <= 1
Clear1F(C, n) == n = -1 \/ Cardinality({f \in 1..Len(C.feats) : FName(C, f) = n}) <= 1

---------------------------------------------------------------------------
(* Mutations described by operations *)
\* initializers: first operation for each mixin which has one
OpMixin(C, w, d, s) == IF s.n = -1 THEN s.m ELSE FindM(C, w, d, s.n)
InitOf(C, w, d, ops, m, byupdate) ==
    LET P(s) == s.k \in {"add", "con"} /\ (s.iv # -9 \/ (byupdate /\ s.k = "con")) /\ OpMixin(C, w, d, s) = m
        i == IxWhere(ops, P)
    IN i
Inits(C, w, d, ops, c) ==
    [iv |-> [m \in 1..Len(C.mixs) |-> LET i == InitOf(C, w, d, ops, m, c) IN IF i = 0 THEN -9 ELSE ops[i].iv],
     uv |-> [m \in 1..Len(C.mixs) |-> LET i == InitOf(C, w, d, ops, m, c) IN
                IF i = 0 \/ ~c \/ ops[i].k # "con" THEN -9 ELSE ops[i].uv],
     tp |-> {m \in 1..Len(C.mixs) : LET i == InitOf(C, w, d, ops, m, c) IN i # 0 /\ ops[i].tp}]

MutateToType(C, w, o, tgt, ops, fault, c) ==
    LET v == Inits(C, w, tgt.d, ops, c)
        Steps(p) == InitSteps(C, p, fault, v.iv, v.uv, v.tp)
    IN IF ~c /\ ops = <<>> THEN ResetType(C, w, o, tgt, fault)
       ELSE IF ~c /\ tgt = TypeNow(w, o) THEN Ok(w)
       ELSE Mutation(C, w, o, tgt, fault, Steps)
MutateOps(C, w, o, ops, fault, c) ==
    LET d == w.ob[o].d
        ed == Edits(C, w, d, ObMs(w, o), ops, TRUE, 1)
        g == GetType(C, w, d, ed.l)
    IN IF ed.bad THEN Err(w, "type")
       ELSE IF g.r # "ok" THEN g
       ELSE MutateToType(C, g.w, o, [d |-> d, t |-> g.x], ops, fault, c)
\* end: "dtor", "apply", "cancel", "throw", "applythrow"
Gradual(C, w, o, ops, end, fault) ==
    LET d == w.ob[o].d
        ed == Edits(C, w, d, ObMs(w, o), ops, TRUE, 1)
        g == GetType(C, w, d, ed.l)
        done == IF g.r # "ok" THEN g ELSE ResetType(C, g.w, o, [d |-> d, t |-> g.x], fault)
    IN IF ed.bad THEN Err(w, "type")
       ELSE CASE end = "cancel" -> Ok(w)
              [] end = "throw" -> Err(w, "user")
              [] end = "applythrow" -> IF done.r = "ok" THEN [done EXCEPT !.r = "user"] ELSE done
              [] OTHER -> done

---------------------------------------------------------------------------
(* What can be asked about a type *)
TypeInfo(C, w, d, t) ==
    LET ms == TyMs(w, d, t)
        near == {m \in 1..Len(C.mixs) : w.mr[m].d \in {0, d}}
        fnear == {f \in 1..Len(C.feats) : w.fr[f].d \in {0, d}}
        P(f) == Providers(C, ms, f)
        feat(f) == IF f \notin fnear \/ w.fr[f].d # d THEN <<>>
                   ELSE [k \in 1..Len(P(f)) |-> <<P(f)[k].i - 1, P(f)[k].m, P(f)[k].bid, P(f)[k].prio>>]
        top(f) == IF w.fr[f].d # d THEN 0 ELSE TopCount(P(f))
        nx(f) == IF w.fr[f].d # d \/ ~Callable(C, ms, f) THEN <<>>
                 ELSE [m \in 1..Len(C.mixs) |-> IF m \in near THEN NextImpl(P(f), m) ELSE 0]
        ns(f) == IF w.fr[f].d # d \/ ~Callable(C, ms, f) THEN <<>>
                 ELSE [m \in 1..Len(C.mixs) |->
                        IF m \notin near THEN <<>>
                        ELSE LET s == NextSet(P(f), m) IN [k \in 1..Len(s) |-> s[k].m]]
    IN [ms |-> ms,
        ft |-> [f \in 1..Len(C.feats) |-> feat(f)],
        tc |-> [f \in 1..Len(C.feats) |-> top(f)],
        is |-> [f \in 1..Len(C.feats) |-> IF f \in fnear THEN Bool(ImplementsStrong(C, ms, f)) ELSE 0],
        im |-> [f \in 1..Len(C.feats) |-> IF f \in fnear THEN Bool(Implements(C, ms, f)) ELSE 0],
        isn |-> [n \in 1..C.names |-> Bool(\E f \in 1..Len(C.feats) : FName(C, f) = n - 1 /\ ImplementsStrong(C, ms, f))],
        nx |-> [f \in 1..Len(C.feats) |-> nx(f)],
        ns |-> [f \in 1..Len(C.feats) |-> ns(f)],
        ix |-> [m \in 1..Len(C.mixs) |-> IF m \in near THEN Ix(ms, m) - 1 ELSE -1],
        ixn |-> [n \in 1..C.names |-> LET K == Named(C, ms, n - 1) IN
                   IF K = {} THEN <<-1>> ELSE SetToSortSeq({k - 1 : k \in K}, LAMBDA a, b : a < b)],
        tr |-> <<Bool(AllHave(C, ms, "i")), Bool(AllHave(C, ms, "ci")), Bool(AllHave(C, ms, "ca")),
                 Bool(\A i \in 1..Len(ms) : ~(Lacks(C, ms[i], "eq") /\ Lacks(C, ms[i], "cm"))),
                 Bool(AllHave(C, ms, "cm"))>>,
        of |-> [k \in 1..Len(C.tcs) |-> IF C.tcs[k].k = "null" THEN -1 ELSE Bool(MatchesClass(C, k, ms))],
        ofn |-> [n \in 1..C.names |-> LET k == FindT(C, w, d, n - 1) IN IF k = 0 THEN -1 ELSE Bool(MatchesClass(C, k, ms))]]

Dom(w, d) == d \in 1..Len(w.dm)
KnownTy(w, d, t) == Dom(w, d) /\ TyLive(w, d, t)
\* What the debug dump has to tell: everything registered, in the order of ids and of application,
\* the types with their traits and feature tables (by id of the feature)
DumpType(C, w, d, t) ==
    LET ms == TyMs(w, d, t)
        i == TyIx(w, d, t)
        fs == w.dm[d].fs
        prov(f) == LET p == Providers(C, ms, f) IN [k \in 1..Len(p) |-> <<p[k].m, p[k].bid, p[k].prio>>]
        used == SelectSeq(fs, LAMBDA f : f # 0 /\ Providers(C, ms, f) # <<>>)
    IN [ms |-> ms,
        n |-> IF i = 0 THEN 0 ELSE w.dm[d].ty[i].n,
        tr |-> TypeInfo(C, w, d, t).tr,
        ft |-> [k \in 1..Len(used) |-> [f |-> used[k], top |-> TopCount(Providers(C, ms, used[k])), ps |-> prov(used[k])]],
        of |-> SetToSortSeq({k \in Range0(w.dm[d].ts) \ {0} : MatchesClass(C, k, ms)}, LAMBDA a, b : a < b)]
Dump(C, w, op) ==
    LET x == w.dm[op.d] IN
    [fs |-> x.fs, ms |-> x.ms,
     rs |-> [i \in 1..Len(x.rs) |-> <<x.rs[i].r, x.rs[i].c>>],
     ts |-> SetToSortSeq(Range0(x.ts) \ {0}, LAMBDA a, b : a < b),
     ty |-> [i \in 1..Len(x.ty) |-> DumpType(C, w, op.d, x.ty[i].t)],
     one |-> DumpType(C, w, op.d, op.t),
     mr |-> [m \in 1..Len(w.mr) |-> <<w.mr[m].d, w.mr[m].i>>],
     fr |-> [f \in 1..Len(w.fr) |-> <<w.fr[f].d, w.fr[f].i>>],
     ext |-> [m \in 1..Len(C.mixs) |-> Bool(External(C, m))]]
DumpPre(C, w, op) ==
    /\ KnownTy(w, op.d, op.t)
    /\ CASE op.what = "mix" -> op.k \in 1..Len(C.mixs)
         [] op.what = "feat" -> op.k \in 1..Len(C.feats)
         [] op.what = "rule" -> op.k \in 1..Len(C.rules)
         [] op.what = "tc" -> op.k \in 1..Len(C.tcs)
         [] OTHER -> op.what \in {"dom", "type"}

\* all types of all domains, the empty ones included, compared with each other
AllTypes(w) ==
    FlattenSeq([d \in 1..Len(w.dm) |->
        <<[d |-> d, t |-> 0]>> \o [i \in 1..Len(w.dm[d].ty) |-> [d |-> d, t |-> w.dm[d].ty[i].t]]])
CmpMatrix(C, w) ==
    LET a == AllTypes(w) IN
    [i \in 1..Len(a) |-> [j \in 1..Len(a) |-> CmpTypes(C, w, a[i].d, a[i].t, a[j].d, a[j].t)]]
StrictTotalOrder(M) ==
    \A i, j \in 1..Len(M) :
        /\ (M[i][j] = 0) = (i = j)
        /\ M[i][j] = -M[j][i]
        /\ \A k \in 1..Len(M) : (M[i][j] < 0 /\ M[j][k] < 0) => M[i][k] < 0

---------------------------------------------------------------------------
(* What the program may do: conditions the library leaves to its user *)
Living(w, o) == o \in 1..Len(w.ob) /\ w.ob[o].st = 1
Free(w, o) == o \in 1..Len(w.ob) /\ w.ob[o].st = 0
IsC(op) == op.via = "c"
InUse(w, d, m) == \E o \in 1..Len(w.ob) : w.ob[o].st = 1 /\ w.ob[o].d = d /\ Has(ObMs(w, o), m)
SameDomain(w, o, d, t) == w.ob[o].d = d \/ w.ob[o].t = 0 \/ t = 0
NearMixin(C, w, d, m) == m \in 1..Len(C.mixs) /\ w.mr[m].d \in {0, d}
OpsFine(C, w, d, ops, c) ==
    \A i \in 1..Len(ops) :
        LET s == ops[i] IN
        /\ Clear1(C, s.n)
        /\ s.n = -1 => NearMixin(C, w, d, s.m)
        /\ s.iv # -3 \/ c                       \* only C functions return errors
        /\ s.iv # -1 \/ ~c                      \* only C++ functions throw
        /\ s.k # "what" \/ c                    \* C++ has no way to say it
        /\ s.tp => (~c /\ s.n = -1 /\ s.m <= 8 /\ C.mixs[s.m].sz > 0)
\* a failing copy assignment that has to come back to the old domain is undefined across domains
PreObj(C, w, op) ==
    CASE op.o = "newE" -> Free(w, op.ob) /\ Dom(w, op.d) /\ (IsC(op) => op.al = 0)
      [] op.o = "newT" -> Free(w, op.ob) /\ KnownTy(w, op.d, op.t) /\ (IsC(op) => op.al = 0 /\ ~op.seal)
      [] op.o \in {"del", "clear", "seal"} -> Living(w, op.ob)
      [] op.o = "mv" -> Free(w, op.ob) /\ Living(w, op.src)
      [] op.o = "copy" -> Free(w, op.ob) /\ Living(w, op.src) /\ (IsC(op) => op.al = 0)
      [] op.o \in {"massign", "equals", "compare"} -> Living(w, op.ob) /\ Living(w, op.src)
      [] op.o \in {"copyFrom", "copyMatch"} ->
            Living(w, op.ob) /\ Living(w, op.src) /\ SameDomain(w, op.ob, w.ob[op.src].d, w.ob[op.src].t)
      [] op.o = "moveMatch" ->
            Living(w, op.ob) /\ Living(w, op.src) /\ op.ob # op.src /\ SameDomain(w, op.ob, w.ob[op.src].d, w.ob[op.src].t)
      [] op.o \in {"reset", "piece"} ->
            /\ op.o = "piece" => \* nothing goes on after a rollback
                 \A i \in 1..Len(op.ss) : op.ss[i].k = "rb" => \A j \in i..Len(op.ss) : op.ss[j].k \in {"rb", "fin", "thr"}
            /\ Living(w, op.ob) /\ KnownTy(w, op.d, op.t) /\ SameDomain(w, op.ob, op.d, op.t)
      [] op.o = "set" -> Living(w, op.ob) /\ op.i < Len(w.ob[op.ob].vs)
      \* (the list of mixins being edited comes from the default allocator, which must not fail here)
      [] op.o = "mutate" -> Living(w, op.ob) /\ (op.ft.k = "al" => w.ob[op.ob].al # 0) /\ OpsFine(C, w, w.ob[op.ob].d, op.ops, IsC(op)) /\ (IsC(op) \/ op.ops # <<>>)
      [] op.o = "gradual" -> Living(w, op.ob) /\ (op.ft.k = "al" => w.ob[op.ob].al # 0) /\ OpsFine(C, w, w.ob[op.ob].d, op.ops, FALSE)
      [] op.o = "mutateTo" ->
            /\ Living(w, op.ob) /\ KnownTy(w, op.d, op.t) /\ SameDomain(w, op.ob, op.d, op.t)
            /\ w.ob[op.ob].d = op.d \/ op.ops = <<>>
            /\ OpsFine(C, w, op.d, op.ops, IsC(op))
      [] op.o = "call" ->
            /\ Living(w, op.ob) /\ op.f \in 1..Len(C.feats)
            /\ w.fr[op.f].d \in {0, w.ob[op.ob].d}
            /\ Callable(C, ObMs(w, op.ob), op.f)
      [] OTHER -> FALSE
Pre(C, w, op) ==
    CASE op.o = "regF" -> Dom(w, op.d)
      [] op.o = "unregF" ->
            \* not while a mixin of the domain provides it
            Dom(w, op.d) /\ (w.fr[op.f].d = op.d =>
                \A k \in 1..Len(w.dm[op.d].ms) : w.dm[op.d].ms[k] = 0 \/ ~Has(FeatsOf(C, w.dm[op.d].ms[k]), op.f))
      [] op.o = "regM" ->
            Dom(w, op.d) /\ \A f \in Range0(FeatsOf(C, op.m)) : w.fr[f].d \in {0, op.d}
      [] op.o = "unregM" -> Dom(w, op.d) /\ (w.mr[op.m].d = op.d => ~InUse(w, op.d, op.m))
      [] op.o \in {"regT", "unregT", "addR", "remR", "gc"} -> Dom(w, op.d)
      [] op.o = "getT" ->
            /\ Dom(w, op.d) /\ Dom(w, op.md)
            /\ \A i \in 1..Len(op.ms) : op.ms[i] \in 1..Len(C.mixs)
            /\ op.kind = "i" => op.md = op.d
      [] op.o = "tinfo" -> KnownTy(w, op.d, op.t)
      [] op.o = "tcmp" -> TRUE
      [] op.o = "dump" -> Dom(w, op.d) /\ DumpPre(C, w, op)
      [] op.o = "tm" ->
            /\ KnownTy(w, op.d, op.t)
            /\ \A i \in 1..Len(op.ops) :
                 LET s == op.ops[i] IN
                 IF s.k \in {"impl", "imps", "impn"} THEN Clear1F(C, s.n) /\ (s.k # "impn" => s.m \in 1..Len(C.feats))
                 ELSE /\ Clear1(C, s.n)
                      /\ s.n = -1 => s.m \in 1..Len(C.mixs)
                      /\ IsC(op) => ~(s.k \in {"sadd", "saddl"} \/ (s.k \in {"add", "addl"} /\ s.n # -1))
      [] OTHER -> PreObj(C, w, op)

---------------------------------------------------------------------------
DoObj(C, w, op) ==
    LET tgt == [d |-> op.d, t |-> op.t] IN
    CASE op.o = "newE" -> NewEmpty(w, op.ob, op.d, op.al)
      [] op.o = "newT" -> NewOfType(C, w, op.ob, op.d, op.t, op.al, op.seal, op.ft)
      [] op.o = "del" -> Destroy(C, w, op.ob)
      [] op.o = "clear" -> Clear(C, w, op.ob)
      [] op.o = "seal" -> Ok([w EXCEPT !.ob[op.ob].se = TRUE])
      [] op.o = "mv" -> MoveConstruct(w, op.ob, op.src)
      [] op.o = "massign" -> MoveAssign(C, w, op.ob, op.src)
      [] op.o = "copy" -> CopyConstruct(C, w, op.ob, op.src, op.al, op.ft)
      [] op.o = "copyFrom" -> CopyFrom(C, w, op.ob, op.src, op.ft)
      [] op.o = "copyMatch" -> CopyMatchingFrom(C, w, op.ob, op.src, op.ft)
      [] op.o = "moveMatch" -> MoveMatchingFrom(C, w, op.ob, op.src, op.fb)
      [] op.o = "equals" -> OkX(w, Bool(Equals(C, w, op.ob, op.src)))
      [] op.o = "compare" -> Compare(C, w, op.ob, op.src)
      [] op.o = "reset" -> ResetType(C, w, op.ob, tgt, op.ft)
      [] op.o = "piece" -> Piecewise(C, w, op.ob, tgt, op.ft, op.ss)
      [] op.o = "set" -> Ok([w EXCEPT !.ob[op.ob].vs[op.i + 1] = Val(C, ObMs(w, op.ob)[op.i + 1], op.v)])
      [] op.o = "mutate" -> MutateOps(C, w, op.ob, op.ops, op.ft, IsC(op))
      [] op.o = "gradual" -> Gradual(C, w, op.ob, op.ops, op.end, op.ft)
      [] op.o = "mutateTo" -> MutateToType(C, w, op.ob, tgt, op.ops, op.ft, IsC(op))
      [] op.o = "call" -> Call(C, w, op.ob, op.f, op.arg, op.beh, op.cb)
DoCpp(C, w, op) ==
    CASE op.o = "regF" -> RegFeature(C, w, op.d, op.f)
      [] op.o = "unregF" -> UnregFeature(C, w, op.d, op.f)
      [] op.o = "regM" -> RegMixin(C, w, op.d, op.m)
      [] op.o = "unregM" -> UnregMixin(C, w, op.d, op.m)
      [] op.o = "regT" -> RegTypeClass(C, w, op.d, op.t)
      [] op.o = "unregT" -> UnregTypeClass(C, w, op.d, op.t)
      [] op.o = "addR" -> AddRule(C, w, op.d, op.r)
      [] op.o = "remR" -> RemRule(C, w, op.d, op.r)
      [] op.o = "gc" -> CollectTypes(w, op.d)
      [] op.o = "getT" -> IF op.md # op.d THEN Err(w, "domain") ELSE GetType(C, w, op.d, op.ms)
      [] op.o = "tinfo" -> OkX(w, TypeInfo(C, w, op.d, op.t))
      [] op.o = "tcmp" -> OkX(w, CmpMatrix(C, w))
      [] op.o = "dump" -> OkX(w, Dump(C, w, op))
      [] op.o = "tm" ->
            LET ed == Edits(C, w, op.d, TyMs(w, op.d, op.t), op.ops, FALSE, 1)
                g == IF op.fin THEN GetType(C, w, op.d, ed.l) ELSE Ok(w)
            IN [g EXCEPT !.x = [xs |-> ed.xs, ms |-> ed.l, t |-> g.x]]
      [] OTHER -> DoObj(C, w, op)
\* The C functions report all errors alike, and some not at all
SilentInC == {"unregF", "unregM", "unregT", "remR", "gc"}
Do(C, w, op) ==
    LET r == DoCpp(C, w, op) IN
    IF ~IsC(op) THEN r
    ELSE IF op.o = "clear" /\ r.r # "ok" THEN [r EXCEPT !.r = "ok", !.x = 0]
    ELSE IF op.o = "clear" THEN [r EXCEPT !.x = 1]
    ELSE IF op.o \in SilentInC THEN [r EXCEPT !.r = "ok"]
    ELSE IF op.o = "tm" THEN
         \* refused edits are reported like those which find nothing
         [r EXCEPT !.r = IF @ = "ok" THEN "ok" ELSE "err",
                   !.x.xs = [i \in 1..Len(@) |-> IF @[i] = -1 THEN 0 ELSE @[i]]]
    ELSE IF r.r # "ok" THEN [r EXCEPT !.r = "err"] ELSE r

---------------------------------------------------------------------------
(* What can be observed between operations *)
RECURSIVE TrimZeros(_)
TrimZeros(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN TrimZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* for each name: the elements a lookup by it may find (0 for none)
Lookup(C, sparse, NameOf(_)) ==
    [n \in 1..C.names |->
        LET K == {x \in Range0(sparse) : x # 0 /\ NameOf(x) = n - 1}
        IN IF K = {} THEN <<0>> ELSE SetToSortSeq(K, LAMBDA a, b : a < b)]
ObsDomain(C, w, d) ==
    LET x == w.dm[d]
        NM(m) == MName(C, m) NF(f) == FName(C, f) NT(t) == TName(C, t)
    IN [ms |-> TrimZeros(x.ms), fs |-> TrimZeros(x.fs),
        mn |-> Lookup(C, x.ms, NM), fn |-> Lookup(C, x.fs, NF), tn |-> Lookup(C, x.ts, NT),
        ts |-> SetToSortSeq(Range0(x.ts) \ {0}, LAMBDA a, b : a < b),
        rs |-> [i \in 1..Len(x.rs) |-> <<x.rs[i].r, x.rs[i].c>>],
        ty |-> [i \in 1..Len(x.ty) |-> <<x.ty[i].t, x.ty[i].ms, x.ty[i].n>>]]
ObsObject(w, o) ==
    LET x == w.ob[o] IN
    IF x.st = 0 THEN <<>> ELSE <<x.d, x.t, x.al, Bool(x.se), x.vs, x.as>>
Obs(C, w) ==
    [dm |-> [d \in 1..Len(w.dm) |-> ObsDomain(C, w, d)],
     fr |-> [f \in 1..Len(w.fr) |-> w.fr[f].i],
     mr |-> [m \in 1..Len(w.mr) |-> <<w.mr[m].d, w.mr[m].i>>],
     ob |-> [o \in 1..Len(w.ob) |-> ObsObject(w, o)]]
=============================================================================
