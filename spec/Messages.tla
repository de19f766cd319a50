------------------------------ MODULE Messages -------------------------------
(***************************************************************************)
(* Messages: which mixins a call of feature f on an object runs, in which  *)
(* order and with which result.                                            *)
(*                                                                         *)
(* beh[m] says what the implementation of mixin m does:                    *)
(*   ret   returns Answer(m, arg)        thr   throws                      *)
(*   next  calls the next implementer with arg + 1 and returns its result  *)
(*   set   calls the next bidder set     top   calls the next bidder top   *)
(*   nextq, setq, topq  the same, but answers itself if there is none      *)
(*                                                                         *)
(* Events <<"p", m, k, arg>>: implementation k of mixin m was called with  *)
(* arg; <<"dp", 0, 0, arg>>: the default implementation was.               *)
(***************************************************************************)
EXTENDS Objects

Answer(m, arg) == (arg * 100 + m) % 1000
DefaultAnswer(arg) == 900 + arg

RECURSIVE ProvKFrom(_, _, _, _)
ProvKFrom(C, ms, f, i) ==
    IF i > Len(ms) THEN <<>>
    ELSE LET fs == C.mixs[ms[i]].fs
             mine(k) == fs[k].f = f
             own == SelectSeq(Idx(fs), mine)
         IN [k \in 1..Len(own) |-> [i |-> i, m |-> ms[i], bid |-> fs[own[k]].b, prio |-> fs[own[k]].p, k |-> own[k]]]
            \o ProvKFrom(C, ms, f, i + 1)
ProvidersK(C, ms, f) == SortBy(ProvKFrom(C, ms, f, 1), ProvLess)

\* first position after the group of equal bids which starts at i
RECURSIVE GroupEnd(_, _)
GroupEnd(p, i) == IF i < Len(p) /\ p[i + 1].bid = p[i].bid THEN GroupEnd(p, i + 1) ELSE i + 1

\* accumulated run: r result class, x result, e events
RECURSIVE RunOne(_, _, _, _)
RECURSIVE RunGroup(_, _, _, _, _, _)
RunOne(p, i, arg, beh) ==
    LET m == p[i].m
        ev == <<<<"p", m, p[i].k, arg>>>>
        b == beh[m]
        ge == GroupEnd(p, i)
        quit(r, x) == [r |-> r, x |-> x, e |-> ev]
        cont(c) == [c EXCEPT !.e = ev \o @]
        none == IF b \in {"next", "set", "top"} THEN quit("feature", 0) ELSE quit("ok", Answer(m, arg))
    IN CASE b = "thr" -> quit("user", 0)
         [] b \in {"next", "nextq"} -> IF i = Len(p) THEN none ELSE cont(RunOne(p, i + 1, arg + 1, beh))
         [] b \in {"set", "setq"} ->
               IF ge > Len(p) THEN none
               ELSE cont(RunGroup(p, ge, GroupEnd(p, ge) - 1, arg + 1, beh, <<>>))
         [] b \in {"top", "topq"} -> IF ge > Len(p) THEN none ELSE cont(RunOne(p, ge, arg + 1, beh))
         [] OTHER -> quit("ok", Answer(m, arg))
\* all of first..j, from the last to the first, whose result it is
RunGroup(p, first, j, arg, beh, ev) ==
    LET c == RunOne(p, j, arg, beh)
        all == [c EXCEPT !.e = ev \o @]
    IN IF c.r # "ok" \/ j = first THEN all ELSE RunGroup(p, first, j - 1, arg, beh, all.e)

\* a combinator which wants n results
RECURSIVE RunCombined(_, _, _, _, _, _, _)
RunCombined(p, j, arg, beh, n, ev, xs) ==
    LET c == RunOne(p, j, arg, beh) IN
    IF c.r # "ok" THEN [r |-> c.r, x |-> xs, e |-> ev \o c.e]
    ELSE IF j = 1 \/ Len(xs) >= n THEN [r |-> "ok", x |-> Append(xs, c.x), e |-> ev \o c.e]
    ELSE RunCombined(p, j - 1, arg, beh, n, ev \o c.e, Append(xs, c.x))

\* cb = 0: plain call. cb > 0: through a combinator which wants cb results; its answer is the
\* announced number of results followed by the results it got
Call(C, w, o, f, arg, beh, cb) ==
    LET p == ProvidersK(C, ObMs(w, o), f)
        dflt == <<<<"dp", 0, 0, arg>>>>
    IN IF p = <<>>
       THEN IF ~C.feats[f].df THEN Err(w, "feature")
            ELSE R(w, "ok", IF cb = 0 THEN DefaultAnswer(arg) ELSE <<1, DefaultAnswer(arg)>>, dflt, <<>>)
       ELSE LET n == TopCount(p)
                c == IF cb > 0 THEN RunCombined(p, n, arg, beh, cb, <<>>, <<n>>)
                     ELSE IF C.feats[f].mc THEN RunGroup(p, 1, n, arg, beh, <<>>)
                     ELSE RunOne(p, 1, arg, beh)
            IN R(w, c.r, IF c.r = "ok" THEN c.x ELSE <<>>, c.e, <<>>)
\* a mixin which implements the feature twice has no well-defined next implementer
Callable(C, ms, f) ==
    LET p == ProvidersK(C, ms, f) IN \A i, j \in 1..Len(p) : p[i].m = p[j].m => i = j
=============================================================================
