-------------------------------- MODULE Conc ---------------------------------
(***************************************************************************)
(* What several threads may observe of one domain.                         *)
(*                                                                         *)
(* The operations of a thread take effect in steps, each of which is one   *)
(* transition of the sequential specification; the steps of different      *)
(* threads interleave in any way between call and return.  Most operations *)
(* are a single step.  Those which are more:                               *)
(*   unregM   types with the mixin go; then the mixin                      *)
(*   mk       a type is asked for; then there is one more object of it     *)
(*   mut      a type is asked for; one more object of it and one less of   *)
(*            the old one, in either order                                 *)
(*   cnt      a type is asked for; then its objects are counted            *)
(*   churn..  much coming and going, which is not looked at while it lasts *)
(*            and leaves everything (but the features of a mixin) as it was*)
(*   use      an object which all share is looked at, copied, compared, and*)
(*            other domains come and go                                    *)
(*                                                                         *)
(* A monitor follows a history of calls and returns: S is the set of all   *)
(* states the domain may be in.  The history is possible as long as S is   *)
(* not empty.  A state is                                                  *)
(*   w    the sequential world                                             *)
(*   p    for each thread (1: main) the operation in progress:             *)
(*        [op, ph: next step, 0 when done, x: what it returns]             *)
(*   ad   addresses of types (by token) as seen so far, 0 unknown          *)
(*   ob   for each object slot: token of its type, -1 when there is none   *)
(***************************************************************************)
EXTENDS World

Idle == [op |-> [o |-> ""], ph |-> 0, x |-> <<>>]
Start(C, nth, nob) == [w |-> W0(C, 0), p |-> [t \in 1..nth |-> Idle], ad |-> <<>>, ob |-> [o \in 1..nob |-> -1]]

Addr(s, t) == IF t = 0 \/ t > Len(s.ad) THEN 0 ELSE s.ad[t]
\* the empty type has number 0, its address is kept apart (e): it is not given to any other type
SetAddr(s, t, a) ==
    IF t <= Len(s.ad) THEN [s EXCEPT !.ad[t] = a]
    ELSE [s EXCEPT !.ad = [i \in 1..t |-> IF i <= Len(@) THEN @[i] ELSE IF i = t THEN a ELSE 0]]

Done(s, t, w, x) == [s EXCEPT !.w = w, !.p[t].ph = 0, !.p[t].x = x]
To(s, t, w, ph, x) == [s EXCEPT !.w = w, !.p[t].ph = ph, !.p[t].x = x]

TypesAndCounts(w) == {<<w.dm[1].ty[i].ms, w.dm[1].ty[i].n>> : i \in 1..Len(w.dm[1].ty)}
NonZero(q) == LET K(e) == e # 0 IN SelectSeq(q, K)
Snapshot(w) ==
    <<NonZero(w.dm[1].ms), NonZero(w.dm[1].fs), NonZero(w.dm[1].ts),
      MapS(w.dm[1].rs, LAMBDA r : <<r.r, r.c>>), w>>

Res(r, x) == IF r = "ok" THEN <<"ok">> \o x ELSE <<"err">>
\* all states after the next step of thread t
StepsOf(C, s, t) ==
    LET op == s.p[t].op ph == s.p[t].ph w == s.w
        One(y, x) == {Done(s, t, y.w, Res(y.r, x))}
        Tell(n) == {Done(s, t, w, <<n>>)}
        slot(q, i) == IF i + 1 > Len(q) THEN 0 ELSE q[i + 1]
    IN CASE op.o = "get"    -> LET g == GetType(C, w, 1, op.ms) IN
                               {Done(s, t, g.w, IF g.r = "ok" THEN <<"ok", TyMs(g.w, 1, g.x), g.x>> ELSE <<"err", <<>>, 0>>)}
         [] op.o = "addR"   -> One(AddRule(C, w, 1, op.r), <<>>)
         [] op.o = "remR"   -> One(RemRule(C, w, 1, op.r), <<>>)
         [] op.o = "regM"   -> LET y == RegMixin(C, w, 1, op.m) IN One(y, <<y.w.mr[op.m].i>>)
         [] op.o = "unregM" ->
               IF w.mr[op.m].d # 1 THEN One(Err(w, "domain"), <<>>)
               ELSE IF ph = 1
                    THEN LET Without(y) == ~Has(y.ms, op.m)
                         IN {To(s, t, [w EXCEPT !.dm[1].ty = SelectSeq(@, Without)], 2, <<>>)}
                    ELSE One(UnregMixin(C, w, 1, op.m), <<>>)
         [] op.o = "regF"   -> LET y == RegFeature(C, w, 1, op.f) IN One(y, <<y.w.fr[op.f].i>>)
         [] op.o = "unregF" -> One(UnregFeature(C, w, 1, op.f), <<>>)
         [] op.o = "regT"   -> One(RegTypeClass(C, w, 1, op.t), <<>>)
         [] op.o = "unregT" -> One(UnregTypeClass(C, w, 1, op.t), <<>>)
         [] op.o = "lookM"  -> Tell(FindM(C, w, 1, op.n))
         [] op.o = "lookI"  -> Tell(slot(w.dm[1].ms, op.i))
         [] op.o = "lookF"  -> Tell(FindF(C, w, 1, op.n))
         [] op.o = "lookJ"  -> Tell(slot(w.dm[1].fs, op.i))
         [] op.o = "lookT"  -> Tell(FindT(C, w, 1, op.n))
         [] op.o = "numT"   -> Tell(Len(w.dm[1].ty))
         [] op.o = "numR"   -> Tell(NumRules(C, w, 1))
         [] op.o = "gc"     -> One(CollectTypes(w, 1), <<>>)
         [] op.o = "trav"   -> {Done(s, t, w, Snapshot(w))}
         [] op.o = "dmp"    -> \* what the debug dump says how many there are of
               {Done(s, t, w, <<Len(NonZero(w.dm[1].fs)), Len(NonZero(w.dm[1].ms)), NumRules(C, w, 1), Len(w.dm[1].ty), Len(NonZero(w.dm[1].ts))>>)}
         [] op.o = "mk"     ->
               IF ph = 1 THEN LET g == GetType(C, w, 1, op.ms) IN
                              IF g.r = "ok" THEN {To(s, t, g.w, 2, <<g.x>>)} ELSE {Done(s, t, g.w, <<"err">>)}
               ELSE LET y == s.p[t].x[1] IN
                    IF ~TyLive(w, 1, y) THEN {} ELSE
                    {[Done(s, t, BumpType(w, 1, y, 1), <<"ok">>) EXCEPT !.ob[op.ob] = y]}
         [] op.o \in {"del", "clr", "mut"} /\ s.ob[op.ob] = -1 -> {Done(s, t, w, <<"err">>)}
         [] op.o \in {"del", "clr"} ->
               {[Done(s, t, BumpType(w, 1, s.ob[op.ob], -1), <<"ok">>) EXCEPT !.ob[op.ob] = IF op.o = "del" THEN -1 ELSE 0]}
         [] op.o = "mut"    ->
               IF ph = 1 THEN LET g == GetType(C, w, 1, op.ms) IN
                              IF g.r # "ok" THEN {Done(s, t, g.w, <<"err">>)}
                              ELSE IF g.x = s.ob[op.ob] THEN {Done(s, t, g.w, <<"ok">>)}
                              ELSE {To(s, t, g.w, 2, <<g.x>>)}
               ELSE LET new == s.p[t].x[1] old == s.ob[op.ob]
                        end(w2) == [Done(s, t, w2, <<"ok">>) EXCEPT !.ob[op.ob] = new]
                    IN IF ph # 3 /\ ~TyLive(w, 1, new) THEN {} ELSE
                       (CASE ph = 2 -> {To(s, t, BumpType(w, 1, new, 1), 3, <<new>>), To(s, t, BumpType(w, 1, old, -1), 4, <<new>>)}
                         [] ph = 3 -> {end(BumpType(w, 1, old, -1))}
                         [] ph = 4 -> {end(BumpType(w, 1, new, 1))})
         [] op.o = "churn"  ->
               LET g == GetType(C, w, 1, IF ph = 1 THEN op.ms ELSE op.ms2) IN
               IF g.r # "ok" THEN {Done(s, t, g.w, <<"err">>)}
               ELSE IF ph = 1 THEN {To(s, t, g.w, 2, <<>>)} ELSE {Done(s, t, g.w, <<"ok">>)}
         [] op.o \in {"churnR", "churnL", "use"} -> {Done(s, t, w, <<"ok">>)}
         [] op.o = "churnM" -> LET y == RegMixin(C, w, 1, op.m) IN
                               IF y.r = "ok" THEN One(UnregMixin(C, y.w, 1, op.m), <<>>) ELSE One(y, <<>>)
         [] op.o = "churnF" -> LET y == RegFeature(C, w, 1, op.f) IN
                               IF y.r = "ok" THEN One(UnregFeature(C, y.w, 1, op.f), <<>>) ELSE One(y, <<>>)
         [] op.o = "churnT" -> LET y == RegTypeClass(C, w, 1, op.t) IN
                               IF y.r = "ok" THEN One(UnregTypeClass(C, y.w, 1, op.t), <<>>) ELSE One(y, <<>>)
         [] op.o = "cnt"    ->
               IF ph = 1 THEN LET g == GetType(C, w, 1, op.ms) IN
                              IF g.r = "ok" THEN {To(s, t, g.w, 2, <<g.x>>)} ELSE {Done(s, t, g.w, <<"err">>)}
               ELSE IF ~TyLive(w, 1, s.p[t].x[1]) THEN {}
               ELSE Tell(IF s.p[t].x[1] = 0 THEN 0 ELSE w.dm[1].ty[TyIx(w, 1, s.p[t].x[1])].n)

Pending(s, t) == s.p[t].ph # 0

\* a query answered from memory answers what the rules in effect make of it
QueryOk(C, w, q) == LET a == ApplyBuilt(C, w, 1, q[1]) IN a.ok /\ a.l = q[2]
SnapshotOk(C, x, y) ==
    LET v == x[5] IN
    /\ y[1] = x[1] /\ y[2] = x[2] /\ y[3] = x[3] /\ y[4] = x[4]
    /\ Range0(y[5]) = TypesAndCounts(v) /\ Len(y[5]) = Len(v.dm[1].ty)
    /\ \A i \in 1..Len(y[6]) : QueryOk(C, v, y[6][i])

\* the states which agree with thread t's operation having returned y
Return(C, s, t, y) ==
    LET o == s.p[t].op.o
        x == s.p[t].x
        s2 == [s EXCEPT !.p[t] = Idle]
    IN IF o = "trav" THEN IF SnapshotOk(C, x, y) THEN {s2} ELSE {}
       ELSE IF o = "get" /\ x[1] = "ok"
       THEN LET tk == x[3] a == Addr(s, tk) IN
            IF Len(y) # 3 \/ y[1] # "ok" \/ y[2] # x[2] THEN {}
            ELSE IF tk = 0 \/ ~TyLive(s.w, 1, tk) THEN {s2}
            ELSE IF a # 0 THEN IF a = y[3] THEN {s2} ELSE {}
            \* no two types at one address
            ELSE IF \E b \in 1..Len(s.ad) : s.ad[b] = y[3] /\ TyLive(s.w, 1, b) THEN {}
            ELSE {SetAddr(s2, tk, y[3])}
       ELSE IF x = y THEN {s2} ELSE {}

\* Closure under steps of other threads until thread t is done.
\* Steps may always be taken later, so none is taken in a state in which t is done.
RECURSIVE Close(_, _, _, _)
Close(C, t, ready, front) ==
    IF front = {} THEN ready
    ELSE LET next == UNION {UNION {StepsOf(C, s, u) : u \in {u \in DOMAIN s.p : Pending(s, u)}} : s \in front}
             fin == {s \in next : ~Pending(s, t)}
         IN Close(C, t, ready \cup fin, next \ fin)

CallOn(S, t, op) == {[s EXCEPT !.p[t] = [op |-> op, ph |-> 1, x |-> <<>>]] : s \in S}
ReturnOn(C, S, t, y) ==
    LET fin == {s \in S : ~Pending(s, t)}
    IN UNION {Return(C, s, t, y) : s \in Close(C, t, fin, S \ fin)}

\* what must hold in every state a history may have led to
StateOk(C, s) == RegistryInv(C, s.w) /\ RulesInv(C, s.w) /\ TypesInv(C, s.w)
=============================================================================
