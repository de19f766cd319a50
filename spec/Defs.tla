-------------------------------- MODULE Defs ---------------------------------
(***************************************************************************)
(* Definitions of mixins and features made with the builders, settings,    *)
(* perks, and what registering defined mixins does to a domain.            *)
(*                                                                         *)
(* A definition is a record d which the calls of a builder change:         *)
(*   n    name (bytes)              al   allocator (0: none, k: the k-th,  *)
(*   s    sizes                          -1: one of its own)               *)
(*   ud   user data                 dep  dependency                        *)
(*   fs   features [f, b, p, c, v]: payload is value v, in place if c # 0  *)
(*   rs   rules [g, n, ud, p, t, x]: shared rule g or one of its own       *)
(* t and x say what the rule does: "u" user rule, "at" attaches to x,      *)
(* "aa" also adds x.                                                       *)
(***************************************************************************)
EXTENDS World
M == INSTANCE Mem
Str == INSTANCE Sv

(* ------------------------------------------------------------- perks *)
\* a perk is [k, b, p, neg]; values not given are <<>>
Opt(neg, v) == IF neg = 1 THEN <<-v>> ELSE <<v>>
Perk(k) ==
    CASE k.k = "bid" -> [b |-> Opt(k.neg, k.b), p |-> <<>>]
      [] k.k = "prio" -> [b |-> <<>>, p |-> Opt(k.neg, k.p)]
      [] k.k = "both" -> [b |-> Opt(k.neg, k.b), p |-> Opt(k.neg, k.p)]
      [] OTHER -> [b |-> <<>>, p |-> <<>>]
\* of several perks the first which has the value counts
First(ks, Get(_)) ==
    LET K == {i \in 1..Len(ks) : Get(Perk(ks[i])) # <<>>}
    IN IF K = {} THEN 0 ELSE Get(Perk(ks[CHOOSE i \in K : \A j \in K : i <= j]))[1]
Bid(ks) == LET G(x) == x.b IN First(ks, G)
Prio(ks) == LET G(x) == x.p IN First(ks, G)

(* ------------------------------------------------------------- builder *)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
Rule == <<32, 114, 117, 108, 101, 32>>                                             \* " rule "
Attaches == <<32, 97, 116, 116, 97, 99, 104, 101, 115, 95, 116, 111, 60>>          \* " attaches_to<"
AlsoAdds == <<32, 97, 108, 115, 111, 95, 97, 100, 100, 115, 60>>                   \* " also_adds<"

Blank(n, s, a) == [n |-> n, s |-> M!Buffer(s, a), al |-> 0, ud |-> 0, dep |-> 0, fs |-> <<>>, rs |-> <<>>]
\* self is the number of the mixin being defined
BCall(d, self, c) ==
    LET feat(v, cell) == [d EXCEPT !.fs = Append(@, [f |-> c.f, b |-> Bid(c.ks), p |-> Prio(c.ks), c |-> cell, v |-> v])]
        own(n, t, x) == [g |-> 0, n |-> n, ud |-> c.u, p |-> Prio(c.ks), t |-> t, x |-> x]
        rule(r, dep) == [d EXCEPT !.rs = Append(@, r), !.dep = IF dep THEN 1 ELSE @]
    IN CASE c.c \in {"name", "store"} -> [d EXCEPT !.n = c.n]
         [] c.c = "alloc" -> [d EXCEPT !.al = c.k]
         [] c.c = "allocany" -> [d EXCEPT !.al = c.k]
         [] c.c = "allocown" -> [d EXCEPT !.al = -1]
         [] c.c = "ud" -> [d EXCEPT !.ud = c.u]
         [] c.c = "dep" -> [d EXCEPT !.dep = c.b]
         [] c.c \in {"noop", "adopt"} -> d
         \* payload given as such, or by reference: it stays where it is
         [] c.c \in {"fpayload", "fby", "tby"} -> feat(c.v, c.cell)
         \* payload given by value: stored with the definition
         [] c.c \in {"fwith", "twith", "tbyc"} -> feat(c.v, 0)
         \* payload made by the feature for this mixin
         [] c.c = "timpl" -> feat(1000 * c.f + self, 0)
         [] c.c = "rinfo" -> rule([g |-> c.g, n |-> <<>>, ud |-> 0, p |-> 0, t |-> "g", x |-> 0], TRUE)
         [] c.c = "rnamed" -> rule(own(c.n, "u", 0), TRUE)
         [] c.c = "rfunc" -> rule(own(d.n \o Rule \o Digits(Len(d.rs)), "u", 0), TRUE)
         [] c.c = "attaches" -> rule(own(d.n \o Attaches \o Digits(Len(d.rs)) \o <<62>>, "at", c.x), TRUE)
         [] c.c = "alsoadds" -> rule(own(d.n \o AlsoAdds \o Digits(Len(d.rs)) \o <<62>>, "aa", c.x), FALSE)
RECURSIVE BCalls(_, _, _, _)
BCalls(d, self, cs, i) == IF i > Len(cs) THEN <<>> ELSE LET e == BCall(d, self, cs[i]) IN <<e>> \o BCalls(e, self, cs, i + 1)

\* what a definition has to satisfy whatever was called
DefSound(d, cs) ==
    /\ Len(d.fs) = Cardinality({i \in 1..Len(cs) : cs[i].c \in {"fpayload", "fby", "tby", "fwith", "twith", "tbyc", "timpl"}})
    /\ Len(d.rs) = Cardinality({i \in 1..Len(cs) : cs[i].c \in {"rinfo", "rnamed", "rfunc", "attaches", "alsoadds"}})
    /\ \A i \in 1..Len(d.rs) : d.rs[i].t \in {"u", "g", "at"} => (d.dep = 1 \/ \E j \in 1..Len(cs) : cs[j].c = "dep")

(* ------------------------------------------------------------- universe *)
\* The definitions as a universe of the specification of domains: names become ranks.
\* shared: the rules [n, ud, p, t] which definitions may refer to; user rules do what their user data says:
\* 16 x + y: where mixin x is, mixin y is added (0: nothing). t = "null": the rule has no function
Rank(S, n) == IF n = <<>> THEN 0 ELSE Cardinality({m \in S : Str!Cmp(m, n) < 0}) + 1
RuleRec(S, r, self) ==
    [n |-> Rank(S, r.n), p |-> r.p,
     k |-> IF r.t = "null" THEN "null" ELSE "addif",
     a |-> IF r.t = "at" THEN r.x ELSE IF r.t = "aa" THEN self ELSE r.ud \div 16,
     b |-> IF r.t = "at" THEN self ELSE IF r.t = "aa" THEN r.x ELSE r.ud % 16]
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
\* rules of the definition m, as numbers in the universe
RulesOf(defs, shared, m) ==
    LET before == FoldLeft(LAMBDA a, d : a + CountIf(d.rs, LAMBDA r : r.g = 0), 0, SubSeq(defs, 1, m - 1))
        rs == defs[m].rs
    IN [i \in 1..Len(rs) |-> IF rs[i].g # 0 THEN rs[i].g
                             ELSE Len(shared) + before + CountIf(SubSeq(rs, 1, i), LAMBDA r : r.g = 0)]
OwnRules(d) == SelectSeq(d.rs, LAMBDA r : r.g = 0)
Universe(defs, shared, feats, set) ==
    LET S == {defs[i].n : i \in 1..Len(defs)} \cup UNION {{defs[i].rs[j].n : j \in 1..Len(defs[i].rs)} : i \in 1..Len(defs)}
             \cup {shared[i].n : i \in 1..Len(shared)} \cup {feats[i].n : i \in 1..Len(feats)}
    IN [canon |-> <<set.canon = 1>>, dupM |-> <<set.dupM = 1>>, dupF |-> <<set.dupF = 1>>,
        feats |-> [i \in 1..Len(feats) |-> [n |-> Rank(S, feats[i].n), cl |-> feats[i].cl = 1, df |-> FALSE, mc |-> FALSE]],
        mixs |-> [i \in 1..Len(defs) |->
                    [n |-> Rank(S, defs[i].n), sz |-> defs[i].s.size, ag |-> defs[i].s.align, p |-> 0, dep |-> defs[i].dep = 1,
                     fe |-> FALSE, al |-> IF defs[i].al = 0 THEN 0 ELSE 1, no |-> <<>>,
                     fs |-> [j \in 1..Len(defs[i].fs) |-> [f |-> defs[i].fs[j].f, b |-> defs[i].fs[j].b, p |-> defs[i].fs[j].p]]]],
        rules |-> [i \in 1..Len(shared) |-> RuleRec(S, shared[i], 0)] \o
                  Cat([i \in 1..Len(defs) |-> [j \in 1..Len(OwnRules(defs[i])) |-> RuleRec(S, OwnRules(defs[i])[j], i)]]),
        tcs |-> <<>>, names |-> <<>>]

(* ------------------------------------------------------------- registration of definitions *)
RECURSIVE AddAll(_, _, _, _)
AddAll(C, w, rs, i) ==
    IF i > Len(rs) THEN Ok(w)
    ELSE LET y == AddRule(C, w, 1, rs[i]) IN IF y.r = "ok" THEN AddAll(C, y.w, rs, i + 1) ELSE y
RECURSIVE RemAll(_, _, _, _)
RemAll(C, w, rs, i) == IF i > Len(rs) THEN w ELSE RemAll(C, RemRule(C, w, 1, rs[i]).w, rs, i + 1)
\* registers the mixin with its rules; when it is refused no rule stays
RegDef(C, w, rs, m) ==
    LET a == AddAll(C, w, rs, 1)
        b == IF a.r = "ok" THEN RegMixin(C, a.w, 1, m) ELSE a
    IN IF b.r = "ok" THEN b ELSE [b EXCEPT !.w = [b.w EXCEPT !.dm[1].rs = w.dm[1].rs]]
UnregDef(C, w, rs, m) ==
    LET u == UnregMixin(C, w, 1, m)
    IN Ok(RemAll(C, u.w, rs, 1))
\* two rules in effect with the same priority and name: their order is not determined
Ambiguous(C, w) ==
    LET rs == w.dm[1].rs IN
    \E i, j \in 1..Len(rs) : i < j /\ C.rules[rs[i].r].p = C.rules[rs[j].r].p /\ C.rules[rs[i].r].n = C.rules[rs[j].r].n
DomOp(C, defs, shared, w, op) ==
    CASE op.o = "reg" -> LET y == RegDef(C, w, RulesOf(defs, shared, op.m), op.m) IN [w |-> y.w, r |-> y.r, x |-> <<y.w.mr[op.m].i, NumRules(C, y.w, 1)>>]
      [] op.o = "unreg" -> LET y == UnregDef(C, w, RulesOf(defs, shared, op.m), op.m) IN [w |-> y.w, r |-> "ok", x |-> <<y.w.mr[op.m].i, NumRules(C, y.w, 1)>>]
      [] op.o = "get" -> LET y == GetType(C, w, 1, op.l)
                         IN IF Ambiguous(C, w) THEN [w |-> w, r |-> "skip", x |-> <<>>]
                            ELSE IF y.r # "ok" THEN [w |-> w, r |-> y.r, x |-> <<>>]
                            ELSE [w |-> y.w, r |-> "ok", x |-> TyMs(y.w, 1, y.x)]
\* a mixin is unregistered only when it is registered; nothing may refer to mixins which a program would not have
Allowed(C, w, op) == op.o = "unreg" => w.mr[op.m].d = 1
RECURSIVE DomOps(_, _, _, _, _, _)
DomOps(C, defs, shared, w, ops, i) ==
    IF i > Len(ops) THEN <<>>
    ELSE IF ~Allowed(C, w, ops[i]) THEN <<[r |-> "skip", x |-> <<>>]>> \o DomOps(C, defs, shared, w, ops, i + 1)
    ELSE LET y == DomOp(C, defs, shared, w, ops[i])
         IN <<[r |-> y.r, x |-> y.x]>> \o DomOps(C, defs, shared, y.w, ops, i + 1)

(* ------------------------------------------------------------- operations of a C++ type *)
\* traits: 1 or 0 each: td (trivially default constructible) d, tcc cc, tca ca, tmc nmc (no-throw movable), tma nma, tx
\* "all": of all bytes by the library, "own": with the operation of the type, "no": not supported
OpsOf(t) ==
    [init |-> IF t.td = 1 THEN "all" ELSE IF t.d = 1 THEN "own" ELSE "no",
     cc |-> IF t.tcc = 1 THEN "all" ELSE IF t.cc = 1 THEN "own" ELSE "no",
     ca |-> IF t.tca = 1 THEN "all" ELSE IF t.ca = 1 THEN "own" ELSE "no",
     mc |-> IF t.tmc = 1 THEN "all" ELSE IF t.nmc = 1 THEN "own" ELSE "no",
     ma |-> IF t.tma = 1 THEN "all" ELSE IF t.nma = 1 THEN "own" ELSE "no",
     x |-> IF t.tx = 1 THEN "no" ELSE "own",
     eq |-> "no", cmp |-> "no"]

(* ------------------------------------------------------------- settings *)
Settings(cs) ==
    FoldLeft(LAMBDA s, c : CASE c.c = "canon" -> [s EXCEPT !.canon = c.v] [] c.c = "dupF" -> [s EXCEPT !.dupF = c.v] [] c.c = "dupM" -> [s EXCEPT !.dupM = c.v],
             [canon |-> 0, dupF |-> 0, dupM |-> 0], cs)
(* ------------------------------------------------------------- feature definitions *)
FeatCall(d, c) ==
    CASE c.c \in {"name", "store"} -> [d EXCEPT !.n = c.n]
      [] c.c = "payload" -> [d EXCEPT !.v = c.v, !.c = c.cell]
      [] c.c = "payby" -> [d EXCEPT !.v = c.v, !.c = c.cell]
      [] c.c = "paywith" -> [d EXCEPT !.v = c.v, !.c = 0]
      [] c.c = "adopt" -> d
RECURSIVE FeatCalls(_, _, _)
FeatCalls(d, cs, i) == IF i > Len(cs) THEN <<>> ELSE LET e == FeatCall(d, cs[i]) IN <<e>> \o FeatCalls(e, cs, i + 1)
=============================================================================
