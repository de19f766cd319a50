---------------------------------- MODULE V1 ---------------------------------
(***************************************************************************)
(* The version 1 interface: combinators of multicast results, calls of     *)
(* messages made with its macros, definitions with its feature parser, and *)
(* its rules and their ids. Everything lives in one canonicalizing domain. *)
(***************************************************************************)
EXTENDS World
Str == INSTANCE Sv

(* ------------------------------------------------------------- combinators *)
\* v is a fold of the results fed, n the number of results announced last,
\* c the number of calls since it was made or reset
Trunc(a, b) == IF (a < 0) # (b < 0) THEN -((IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b))
               ELSE (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b)
CNew(k) == [k |-> k, v |-> IF k = "and" THEN 1 ELSE 0, n |-> 0, c |-> 0]
CReset(s) == [s EXCEPT !.v = IF s.k = "and" THEN 1 ELSE 0, !.c = 0]
CNum(s, n) == [s EXCEPT !.n = n, !.c = @ + 1]
CAdd(s, r) == [s EXCEPT !.v = CASE s.k = "and" -> IF s.v = 1 /\ r # 0 THEN 1 ELSE 0
                                [] s.k = "or" -> IF s.v = 1 \/ r # 0 THEN 1 ELSE 0
                                [] OTHER -> s.v + r]
\* whether it wants more
CMore(s) == CASE s.k = "and" -> s.v = 1 [] s.k = "or" -> s.v = 0 [] OTHER -> TRUE
\* what it answers: a value, or <<sum, number>> of which the quotient is taken; <<>> when it has nothing to say
CResult(s) == IF s.k = "mean" THEN (IF s.c # 1 \/ s.n = 0 THEN <<>> ELSE <<s.v, s.n>>) ELSE <<s.v>>
\* quotients of integers are cut
IntResult(s) == LET r == CResult(s) IN IF Len(r) = 2 THEN <<Trunc(r[1], r[2])>> ELSE r

\* a history of a combinator fed by hand: [o |-> "num" / "add" / "reset", v]
RECURSIVE CHist(_, _, _)
CHist(s, os, i) ==
    IF i > Len(os) THEN <<>>
    ELSE LET t == CASE os[i].o = "num" -> CNum(s, os[i].v) [] os[i].o = "add" -> CAdd(s, os[i].v) [] OTHER -> CReset(s)
         IN <<[more |-> IF os[i].o = "add" THEN (IF CMore(t) THEN 1 ELSE 0) ELSE -1, r |-> CResult(t), i |-> IntResult(t)]>> \o CHist(t, os, i + 1)
\* what the folds are, said without folding
FoldSound(k, rs) ==
    LET t == FoldLeft(LAMBDA s, r : CAdd(s, r), CNum(CNew(k), Len(rs)), rs) IN
    CASE k = "and" -> (t.v = 1) = (\A i \in 1..Len(rs) : rs[i] # 0)
      [] k = "or" -> (t.v = 1) = (\E i \in 1..Len(rs) : rs[i] # 0)
      [] OTHER -> t.v = SumS(rs)

(* ------------------------------------------------------------- messages *)
\* F[f]: [ar arity, mc multicast, df default, t type of the result]; answers are numbers; of a bool
\* message 0 or 1, of a double message in quarters
Conv(t, x) == IF t = "bool" THEN (IF x % 2 = 1 THEN 1 ELSE 0) ELSE x
Weigh(args) == FoldLeft(LAMBDA a, i : a + (i + 1) * args[i], 0, Idx(args))
Ans(F, f, q, m, args) == Conv(F[f].t, q.ret[m] + Weigh(args))
DfAns(F, f, args) == Conv(F[f].t, 700 + Weigh(args))
Bump(args) == IF args = <<>> THEN <<>> ELSE [args EXCEPT ![1] = @ + 1]
Group(p, i) == LET K == {j \in i..Len(p) : p[j].bid # p[i].bid} IN IF K = {} THEN Len(p) + 1 ELSE CHOOSE j \in K : \A k \in K : j <= k

\* q: ret, beh of the mixins. Events [m, k, args, c]: copies made of each argument on its way
RECURSIVE One(_, _, _, _, _, _, _)
RECURSIVE Several(_, _, _, _, _, _, _, _)
One(F, f, q, p, i, args, c) ==
    LET m == p[i].m
        ev == <<[m |-> m, args |-> args, c |-> IF args = <<>> THEN 0 ELSE c]>>
        next == Group(p, i)
        b == q.beh[m]
        own == [r |-> "ok", x |-> Ans(F, f, q, m, args), e |-> ev]
    IN CASE b = "thr" -> [r |-> "user", x |-> 0, e |-> ev]
         [] b \in {"next", "nextq"} ->
              IF next > Len(p) THEN (IF b = "next" THEN [r |-> "feature", x |-> 0, e |-> ev] ELSE own)
              ELSE LET s == IF F[f].mc THEN Several(F, f, q, p, next, Group(p, next) - 1, Bump(args), <<>>)
                            ELSE One(F, f, q, p, next, Bump(args), 0)
                   IN [s EXCEPT !.e = ev \o @]
         [] OTHER -> own
Several(F, f, q, p, first, j, args, ev) ==
    LET s == One(F, f, q, p, j, args, IF j = first THEN 0 ELSE 1)
        all == [s EXCEPT !.e = ev \o @]
    IN IF s.r # "ok" \/ j = first THEN all ELSE Several(F, f, q, p, first, j - 1, args, all.e)
\* s: the combinator, or a list of what was fed, for one which stops after q.stop results
RECURSIVE Folded(_, _, _, _, _, _, _, _)
Folded(F, f, q, p, s, j, args, ev) ==
    LET a == One(F, f, q, p, j, args, IF j = 1 THEN 0 ELSE 1)
        t == IF s.k = "rec" THEN [s EXCEPT !.l = Append(@, a.x)] ELSE CAdd(s, a.x)
        more == IF s.k = "rec" THEN Len(t.l) < q.stop ELSE CMore(t)
    IN IF a.r # "ok" THEN [r |-> a.r, s |-> s, e |-> ev \o a.e]
       ELSE IF j = 1 \/ ~more THEN [r |-> "ok", s |-> t, e |-> ev \o a.e]
       ELSE Folded(F, f, q, p, t, j - 1, args, ev \o a.e)

\* a plain call
Plain(C, F, ms, f, q, args) ==
    LET p == ProvidersK(C, ms, f) IN
    IF p = <<>> THEN (IF F[f].df THEN [r |-> "ok", x |-> DfAns(F, f, args), e |-> <<[m |-> 0, args |-> args, c |-> 0]>>]
                      ELSE [r |-> "feature", x |-> 0, e |-> <<>>])
    ELSE IF F[f].mc THEN Several(F, f, q, p, 1, TopCount(p), args, <<>>)
    ELSE One(F, f, q, p, 1, args, 0)
\* a call through the combinator s
Combined(C, F, ms, f, q, args, s) ==
    LET p == ProvidersK(C, ms, f)
        num(n) == IF s.k = "rec" THEN [s EXCEPT !.n = n] ELSE CNum(s, n)
        fed(t, x) == IF s.k = "rec" THEN [t EXCEPT !.l = Append(@, x)] ELSE CAdd(t, x)
    IN IF p = <<>> THEN (IF F[f].df THEN [r |-> "ok", s |-> fed(num(1), DfAns(F, f, args)), e |-> <<[m |-> 0, args |-> args, c |-> 0]>>]
                         ELSE [r |-> "feature", s |-> num(1), e |-> <<>>])
       ELSE Folded(F, f, q, p, num(TopCount(p)), TopCount(p), args, <<>>)

(* ------------------------------------------------------------- the feature parser *)
\* perks are applied from the inside out; the last one of a kind counts
LastPerk(ps, ks) == LET K == {i \in 1..Len(ps) : ps[i].k \in ks} IN IF K = {} THEN 0 ELSE ps[CHOOSE i \in K : \A j \in K : j <= i].v
\* cell: what the feature is bound to
PItem(d, it) ==
    CASE it.c = "tag" -> [d EXCEPT !.fs = Append(@, [f |-> it.f, b |-> LastPerk(it.ps, {"bid"}), p |-> LastPerk(it.ps, {"prio", "uprio"})])]
      [] it.c = "bind" -> [d EXCEPT !.fs = Append(@, [f |-> it.f, b |-> 0, p |-> 0])]
      [] it.c = "ud" -> [d EXCEPT !.ud = it.v]
      [] it.c = "name" -> [d EXCEPT !.n = it.n]
      [] it.c = "dep" -> [d EXCEPT !.dep = it.v]
      [] OTHER -> d
RECURSIVE PItems(_, _, _)
PItems(d, its, i) == IF i > Len(its) THEN d ELSE PItems(PItem(d, its[i]), its, i + 1)
\* "M<k>"
Parsed(k, its) == PItems([n |-> <<77, 60, 48 + k, 62>>, ud |-> 0, dep |-> 0, fe |-> 1, fs |-> <<>>], its, 1)

(* ------------------------------------------------------------- universe *)
Rank(S, n) == IF n = <<>> THEN 0 ELSE Cardinality({m \in S : Str!Cmp(m, n) < 0}) + 1
Universe(ds, F, rules, tcs, nocopy) ==
    LET S == {ds[i].n : i \in 1..Len(ds)}
    IN [canon |-> <<TRUE>>, dupM |-> <<FALSE>>, dupF |-> <<FALSE>>,
        feats |-> [i \in 1..Len(F) |-> [n |-> i, cl |-> F[i].mc, df |-> F[i].df, mc |-> F[i].mc]],
        mixs |-> [i \in 1..Len(ds) |-> [n |-> Rank(S, ds[i].n), sz |-> 8, ag |-> 8, p |-> 0, dep |-> ds[i].dep = 1, fe |-> TRUE, al |-> 0,
                                        no |-> IF Has(nocopy, i) THEN <<"ci">> ELSE <<>>, fs |-> ds[i].fs]],
        rules |-> [i \in 1..Len(rules) |-> [n |-> 0, p |-> 0, k |-> rules[i].k, a |-> rules[i].a, b |-> rules[i].b, l |-> rules[i].l]],
        tcs |-> [i \in 1..Len(tcs) |-> [n |-> 0, k |-> tcs[i].k, a |-> tcs[i].a]], names |-> <<>>]
RECURSIVE RegAll(_, _, _)
RegAll(C, w, m) == IF m > Len(C.mixs) THEN [w |-> w, l |-> <<>>]
                   ELSE LET y == RegMixin(C, w, 1, m) z == RegAll(C, y.w, m + 1) IN [w |-> z.w, l |-> <<y.r>> \o z.l]

(* ------------------------------------------------------------- rule ids *)
\* hs: what is live, by handle: the rule, or 0. Rules have no name and no priority, so they work in any order.
Orders(rs) == LET P == {f \in [1..Len(rs) -> 1..Len(rs)] : \A i, j \in 1..Len(rs) : i # j => f[i] # f[j]}
              IN {[i \in 1..Len(rs) |-> rs[f[i]]] : f \in P}
Answer1(C, w, l) == LET y == GetType(C, w, 1, l) IN [r |-> y.r, l |-> IF y.r = "ok" THEN TyMs(y.w, 1, y.x) ELSE <<>>]
Answers(C, w, l) == {Answer1(C, [w EXCEPT !.dm[1].rs = o], l) : o \in Orders(w.dm[1].rs)}
RECURSIVE RuleOps(_, _, _, _, _)
RuleOps(C, w, hs, os, i) ==
    IF i > Len(os) THEN <<>>
    ELSE LET op == os[i] IN
    CASE op.o = "add" ->
           LET y == AddRule(C, w, 1, op.r)
           IN <<[r |-> "ok", n |-> NumRules(C, y.w, 1)]>> \o RuleOps(C, y.w, Append(hs, op.r), os, i + 1)
      [] op.o = "rm" ->
           LET y == IF hs[op.h] = 0 THEN w ELSE RemRule(C, w, 1, hs[op.h]).w
           IN <<[r |-> hs[op.h], n |-> NumRules(C, y, 1)]>> \o RuleOps(C, y, [hs EXCEPT ![op.h] = 0], os, i + 1)
      [] op.o = "bad" -> <<[r |-> 0, n |-> NumRules(C, w, 1)]>> \o RuleOps(C, w, hs, os, i + 1)
      [] op.o = "get" -> <<[any |-> Answers(C, w, op.l)]>> \o RuleOps(C, w, hs, os, i + 1)
\* removal of handle h of a removed rule: the id may belong to a later handle (ids are used again),
\* so it is only asked for when its id is unknown (the driver sees to that)

(* ------------------------------------------------------------- calls on objects *)
Ks == <<"and", "or", "sum", "mean">>
RECURSIVE Calls(_, _, _, _, _, _)
\* cs: the combinators of the program
Calls(C, F, w, cs, os, i) ==
    IF i > Len(os) THEN <<>>
    ELSE LET op == os[i]
             more(ans, s) == <<ans>> \o Calls(C, F, w, s, os, i + 1)
             ty == IF op.o \in {"reset", "conv"} THEN [r |-> "ok", l |-> <<>>] ELSE Answer1(C, w, op.l)
             ms == ty.l
         IN IF ty.r # "ok" THEN more([r |-> "refused"], cs)
         ELSE CASE op.o = "reset" -> more([r |-> "ok"], [cs EXCEPT ![op.k] = CReset(@)])
           [] op.o = "call" /\ op.k = 0 ->
                LET y == Plain(C, F, ms, op.f, op, op.args) IN more([r |-> y.r, x |-> IF y.r = "ok" THEN <<y.x>> ELSE <<>>, e |-> y.e], cs)
           \* through one which is made for the call
           [] op.o = "call" /\ op.k > 0 /\ op.k <= 4 /\ op.lv = 0 ->
                LET y == Combined(C, F, ms, op.f, op, op.args, CNew(Ks[op.k]))
                IN more([r |-> y.r, x |-> IF y.r = "ok" THEN (IF F[op.f].t = "double" THEN CResult(y.s) ELSE IntResult(y.s)) ELSE <<>>, e |-> y.e], cs)
           \* through one of the program
           [] op.o = "call" /\ op.k > 0 /\ op.lv = 1 ->
                LET y == Combined(C, F, ms, op.f, op, op.args, cs[op.k])
                IN more([r |-> y.r, x |-> IntResult(y.s), e |-> y.e], [cs EXCEPT ![op.k] = y.s])
           \* through one which wants op.stop results and tells what it got
           [] op.o = "call" /\ op.k = 5 ->
                LET y == Combined(C, F, ms, op.f, op, op.args, [k |-> "rec", n |-> 0, l |-> <<>>])
                IN more([r |-> y.r, x |-> <<y.s.n>> \o y.s.l, e |-> y.e], cs)
           [] op.o = "impl" -> more([r |-> "ok", x |-> [f \in 1..Len(F) |-> Bool(Implements(C, ms, f))]], cs)
           [] op.o = "isa" -> more([r |-> "ok", x |-> [t \in 1..Len(C.tcs) |-> Bool(MatchesClass(C, t, ms))]], cs)
           [] op.o = "copy" -> more(IF AllHave(C, ms, "ci") THEN [r |-> "ok", x |-> <<1>>, l |-> ms] ELSE [r |-> "no", x |-> <<0>>], cs)
=============================================================================
