-------------------------------- MODULE Rules --------------------------------
(***************************************************************************)
(* Mutation rules: the reference counted, ordered rule list of a domain    *)
(* and what the rules make of a request.                                   *)
(*                                                                         *)
(* Rule kinds (what the rule functions of the test universe do):           *)
(*   addif a b   has a => b is added unless there                          *)
(*   add a       a is added unless there                                   *)
(*   rem a       the first a is removed                                    *)
(*   back a      a is moved to the back, if there                          *)
(*   mutex a b   only the last one of a, b stays                           *)
(*   sub a b     a is replaced by b where it stands                        *)
(*   tog a       a is removed if there, otherwise added (never settles)    *)
(*   app a       a is appended every time (never settles)                  *)
(*   err a       reports an error when a is there                          *)
(*   thr a       throws an exception of its own when a is there            *)
(*   none        nothing          null   has no function                   *)
(* and those of the v1 interface (l: a list of mixins):                    *)
(*   v1one a l   has a => all of l are added unless there                  *)
(*   v1dep a l   the same, but an error if one of l is not a dependency    *)
(*   v1mx l      only the last one of l stays                              *)
(*   v1sub a b   a is removed and b appended, if a is there                *)
(***************************************************************************)
EXTENDS Registry

CanonPrio == 2147483647

RuleLess(C, a, b) ==
    LET ra == C.rules[a] rb == C.rules[b] IN
    IF ra.p # rb.p THEN ra.p < rb.p
    ELSE IF ra.n # rb.n THEN ra.n < rb.n ELSE a < b

AddRule(C, w, d, r) ==
    IF C.rules[r].k = "null" THEN Err(w, "domain")
    ELSE
    LET P(x) == x.r = r
        i == IxWhere(w.dm[d].rs, P)
        LT(x, y) == RuleLess(C, x.r, y.r)
    IN IF i # 0 THEN Ok([w EXCEPT !.dm[d].rs[i].c = @ + 1])
       ELSE Ok([w EXCEPT !.dm[d].rs = InsertBy(@, [r |-> r, c |-> 1], LT)])
RemRule(C, w, d, r) ==
    LET P(x) == x.r = r
        i == IxWhere(w.dm[d].rs, P)
    IN IF i = 0 THEN Ok(w)
       ELSE IF w.dm[d].rs[i].c > 1 THEN Ok([w EXCEPT !.dm[d].rs[i].c = @ - 1])
       ELSE Ok([w EXCEPT !.dm[d].rs = DropAt(@, i)])

---------------------------------------------------------------------------
AddIfLacking(l, x) == IF Has(l, x) THEN l ELSE Append(l, x)
ToBack(l, x) == IF Has(l, x) THEN Append(DropFirst(l, x), x) ELSE l
AddAllLacking(l, xs) == FoldLeft(LAMBDA acc, x : AddIfLacking(acc, x), l, xs)
\* keep only the last occurrence of any element of S
LastOf(l, S) ==
    LET K == {i \in 1..Len(l) : l[i] \in S}
        k == CHOOSE i \in K : \A j \in K : j <= i
        keep(i) == i \notin K \/ i = k
    IN IF K = {} THEN l ELSE MapS(SelectSeq(Idx(l), keep), LAMBDA i : l[i])

ApplyRule(C, r, l) ==
    LET u == C.rules[r] k == u.k
        K(x) == [ok |-> TRUE, l |-> x, c |-> "ok"]
        F(c) == [ok |-> FALSE, l |-> l, c |-> c]
    IN CASE k = "addif" -> K(IF Has(l, u.a) THEN AddIfLacking(l, u.b) ELSE l)
         [] k = "add"   -> K(AddIfLacking(l, u.a))
         [] k = "rem"   -> K(DropFirst(l, u.a))
         [] k = "back"  -> K(ToBack(l, u.a))
         [] k = "mutex" -> K(LastOf(l, {u.a, u.b}))
         [] k = "sub"   -> K([i \in 1..Len(l) |-> IF l[i] = u.a THEN u.b ELSE l[i]])
         [] k = "tog"   -> K(IF Has(l, u.a) THEN DropFirst(l, u.a) ELSE Append(l, u.a))
         [] k = "app"   -> K(Append(l, u.a))
         [] k = "v1one" -> K(IF Has(l, u.a) THEN AddAllLacking(l, u.l) ELSE l)
         [] k = "v1dep" -> IF Has(l, u.a) THEN (IF \E i \in 1..Len(u.l) : ~C.mixs[u.l[i]].dep THEN F("type") ELSE K(AddAllLacking(l, u.l))) ELSE K(l)
         [] k = "v1mx"  -> K(LastOf(l, {u.l[i] : i \in 1..Len(u.l)}))
         [] k = "v1sub" -> K(IF Has(l, u.a) THEN Append(DropFirst(l, u.a), u.b) ELSE l)
         [] k = "err"   -> IF Has(l, u.a) THEN F("type") ELSE K(l)
         [] k = "thr"   -> IF Has(l, u.a) THEN F("user") ELSE K(l)
         [] OTHER       -> K(l)

\* canonical mixin order: priority, name, id, address
MixinLess(C, w, a, b) ==
    LET x == C.mixs[a] y == C.mixs[b]
        ia == w.mr[a].i ib == w.mr[b].i
    IN IF x.p # y.p THEN x.p < y.p
       ELSE IF x.n # y.n THEN x.n < y.n
       ELSE IF ia # ib THEN (ia # -1 /\ ib = -1) \/ (ia # -1 /\ ib # -1 /\ ia < ib)
       ELSE a < b

RECURSIVE PassFrom(_, _, _, _)
PassFrom(C, rs, l, i) ==
    IF i > Len(rs) THEN [ok |-> TRUE, l |-> l, c |-> "ok"]
    ELSE LET s == ApplyRule(C, rs[i].r, l) IN
         IF s.ok THEN PassFrom(C, rs, s.l, i + 1) ELSE s
\* one application of all rules in effect; in a canonicalizing domain sorting is the last of them
Pass(C, w, d, l) ==
    LET p == PassFrom(C, w.dm[d].rs, l, 1)
        LT(a, b) == MixinLess(C, w, a, b)
    IN IF p.ok /\ C.canon[d] THEN [p EXCEPT !.l = SortBy(p.l, LT)] ELSE p

NumRules(C, w, d) == Len(w.dm[d].rs) + (IF C.canon[d] THEN 1 ELSE 0)
NoDeps(C, l) == LET K(m) == ~C.mixs[m].dep IN SelectSeq(l, K)

MaxPasses == 5
RECURSIVE Settle(_, _, _, _, _, _)
Settle(C, w, d, last, l, i) ==
    LET p == Pass(C, w, d, l) IN
    IF ~p.ok THEN p
    ELSE IF p.l = last THEN p
    ELSE IF i = MaxPasses \/ i = NumRules(C, w, d) THEN [ok |-> FALSE, l |-> p.l, c |-> "type"]
    ELSE Settle(C, w, d, p.l, p.l, i + 1)

\* What a request should become: dependencies are dropped, then the rules are
\* applied until they change nothing any more.
ApplyIdeal(C, w, d, req) ==
    LET l == NoDeps(C, req) IN
    IF NumRules(C, w, d) = 0 THEN [ok |-> TRUE, l |-> l, c |-> "ok"]
    ELSE Settle(C, w, d, l, l, 0)
\* What the implementation does (known finding KF-1): the first pass is compared with the
\* request including its dependencies. When the pass happens to put back exactly the dropped
\* dependencies, the result is taken without checking that it is settled.
ApplyBuilt(C, w, d, req) ==
    LET l == NoDeps(C, req) IN
    IF NumRules(C, w, d) = 0 THEN [ok |-> TRUE, l |-> l, c |-> "ok"]
    ELSE Settle(C, w, d, req, l, 0)

Settled(C, w, d, l) == LET p == Pass(C, w, d, l) IN p.ok /\ p.l = l
Deviates(C, w, d, req) ==
    LET a == ApplyIdeal(C, w, d, req) b == ApplyBuilt(C, w, d, req)
    IN a.ok # b.ok \/ (a.ok /\ a.l # b.l)

---------------------------------------------------------------------------
RulesInv(C, w) ==
    \A d \in 1..Len(w.dm) :
        LET rs == w.dm[d].rs IN
        /\ \A i \in 1..Len(rs) : rs[i].c > 0 /\ C.rules[rs[i].r].k # "null"
        /\ \A i \in 1..Len(rs) - 1 : RuleLess(C, rs[i].r, rs[i + 1].r)
=============================================================================
