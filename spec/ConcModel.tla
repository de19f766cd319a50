------------------------------ MODULE ConcModel ------------------------------
(***************************************************************************)
(* The type registry of a domain as it is built, at the level of its lock: *)
(* every critical section is one step, everything between them is left to  *)
(* the others.  All programs of a few threads with a few operations from a *)
(* small set are run in all interleavings, and the monitor of Conc decides *)
(* about every history: the sequential specification must explain it.      *)
(*                                                                         *)
(*   get   looks for the answer among those remembered; if there is none   *)
(*         works out what the rules make of the request, still under the   *)
(*         (shared) lock; then, with the lock taken anew, either remembers *)
(*         the type found, or builds a type without the lock and adds it   *)
(*         unless somebody did so in the meantime.                         *)
(*   Versioned: what was worked out is only used if rules and types have   *)
(*         not changed since (version), otherwise all begins again.        *)
(*         Without it the library answers from rules no longer in effect   *)
(*         (the defect repaired by 74eeb46).                               *)
(***************************************************************************)
EXTENDS Conc

CONSTANTS NTh, NOps, Versioned, Recheck, Few

M_(d) == [n |-> d, p |-> 0, dep |-> FALSE, sz |-> 4, ag |-> 4, fe |-> FALSE, al |-> 0, no |-> <<>>, fs |-> <<>>]
C == [canon |-> <<FALSE>>, dupM |-> <<FALSE>>, dupF |-> <<FALSE>>, feats |-> <<>>, mixs |-> <<M_(1), M_(2)>>,
      rules |-> <<[n |-> 1, p |-> 0, k |-> "add", a |-> 2, b |-> 2], [n |-> 2, p |-> 1, k |-> "rem", a |-> 1, b |-> 1]>>,
      tcs |-> <<>>, names |-> 4]
Ops == IF Few THEN {[o |-> "get", ms |-> <<1>>], [o |-> "addR", r |-> 1], [o |-> "remR", r |-> 1], [o |-> "gc"]}
       ELSE {[o |-> "get", ms |-> <<1>>], [o |-> "get", ms |-> <<1, 2>>], [o |-> "addR", r |-> 1], [o |-> "remR", r |-> 1],
        [o |-> "addR", r |-> 2], [o |-> "gc"]}
\* where it begins: rules in effect and requests made before
Begins == {<<>>, <<[o |-> "get", ms |-> <<1, 2>>]>>, <<[o |-> "addR", r |-> 1], [o |-> "get", ms |-> <<1>>]>>}
Reg == <<[o |-> "regM", m |-> 1], [o |-> "regM", m |-> 2]>>

VARIABLES prog, I, th, S
vars == <<prog, I, th, S>>

\* the rules of the implementation as a world, to work out answers
RECURSIVE RunSeq(_, _, _)
RunSeq(w, ops, i) ==
    IF i > Len(ops) THEN w
    ELSE LET op == ops[i]
             y == CASE op.o = "regM" -> RegMixin(C, w, 1, op.m)
                    [] op.o = "addR" -> AddRule(C, w, 1, op.r)
                    [] OTHER -> GetType(C, w, 1, op.ms)
         IN RunSeq(y.w, ops, i + 1)
WorldOf(rs) == LET w == RunSeq(W0(C, 0), Reg, 1) IN [w EXCEPT !.dm[1].rs = rs]
Answer0(rs, q) == ApplyBuilt(C, WorldOf(rs), 1, q)

Nil == [ph |-> "", ver |-> 0, l |-> <<>>, f |-> 0]
Init ==
    /\ prog \in [1..NTh -> [1..NOps -> Ops]]
    /\ \E b \in Begins :
        LET w == RunSeq(W0(C, 0), Reg \o b, 1)
            gets == {i \in 1..Len(b) : b[i].o = "get"}
        IN /\ I = [rs |-> w.dm[1].rs, ty |-> [i \in 1..Len(w.dm[1].ty) |-> [a |-> i, ms |-> w.dm[1].ty[i].ms]],
                   qs |-> {<<b[i].ms, 1>> : i \in gets}, ver |-> 0, na |-> Len(w.dm[1].ty) + 1]
           /\ S = {[Start(C, NTh + 1, 0) EXCEPT !.w = w, !.ad = [i \in 1..Len(w.dm[1].ty) |-> i]]}
    /\ th = [t \in 1..NTh |-> [at |-> 1, s |-> Nil]]

Op(t) == prog[t][th[t].at]
More(t) == th[t].at <= NOps
Called(t) == IF th[t].s.ph = "" THEN CallOn(S, t + 1, Op(t)) ELSE S
\* the operation of t goes on (with s), or ends with what it returns
GoOn(t, s) == S' = Called(t) /\ th' = [th EXCEPT ![t].s = s]
End(t, x) == S' = ReturnOn(C, Called(t), t + 1, x) /\ th' = [th EXCEPT ![t] = [at |-> @.at + 1, s |-> Nil]]
TyOf(a) == IF a = 0 THEN <<>> ELSE (CHOOSE y \in Range0(I.ty) : y.a = a).ms
AddrOf(ms) == IF ms = <<>> THEN 0 ELSE LET K == {y \in Range0(I.ty) : y.ms = ms} IN IF K = {} THEN -1 ELSE (CHOOSE y \in K : TRUE).a

Look(t) ==
    /\ Op(t).o = "get" /\ th[t].s.ph \in {"", "look"}
    /\ LET hit == {q \in I.qs : q[1] = Op(t).ms}
           a == Answer0(I.rs, Op(t).ms)
           f == AddrOf(a.l)
       IN IF hit # {} THEN LET q == CHOOSE q \in hit : TRUE IN End(t, <<"ok", TyOf(q[2]), q[2]>>)
          ELSE IF ~a.ok THEN End(t, <<"err", <<>>, 0>>)
          ELSE GoOn(t, [ph |-> IF f # -1 THEN "store" ELSE "add", ver |-> I.ver, l |-> a.l, f |-> f])
    /\ UNCHANGED <<prog, I>>
Obsolete(t) == Versioned /\ I.ver # th[t].s.ver
Store(t) ==
    /\ More(t) /\ th[t].s.ph = "store"
    /\ IF Obsolete(t) THEN GoOn(t, [Nil EXCEPT !.ph = "look"]) /\ UNCHANGED I
       ELSE /\ I' = [I EXCEPT !.qs = {q \in @ : q[1] # Op(t).ms} \cup {<<Op(t).ms, th[t].s.f>>}]
            /\ End(t, <<"ok", th[t].s.l, th[t].s.f>>)
    /\ UNCHANGED prog
Add(t) ==
    /\ More(t) /\ th[t].s.ph = "add"
    /\ LET f == IF Recheck THEN AddrOf(th[t].s.l) ELSE -1
           a == IF f # -1 THEN f ELSE I.na
           Q == {q \in I.qs : q[1] # Op(t).ms} \cup {<<Op(t).ms, a>>}
       IN IF Obsolete(t) THEN GoOn(t, [Nil EXCEPT !.ph = "look"]) /\ UNCHANGED I
          ELSE /\ I' = IF f # -1 THEN [I EXCEPT !.qs = Q]
                       ELSE [I EXCEPT !.qs = Q, !.ty = Append(@, [a |-> a, ms |-> th[t].s.l]), !.na = @ + 1]
               /\ End(t, <<"ok", th[t].s.l, a>>)
    /\ UNCHANGED prog
Rule(t) ==
    /\ Op(t).o \in {"addR", "remR"}
    /\ LET w == WorldOf(I.rs)
           y == IF Op(t).o = "addR" THEN AddRule(C, w, 1, Op(t).r) ELSE RemRule(C, w, 1, Op(t).r)
           rs == y.w.dm[1].rs
           same == {x.r : x \in Range0(rs)} = {x.r : x \in Range0(I.rs)}
       IN I' = IF same THEN [I EXCEPT !.rs = rs] ELSE [I EXCEPT !.rs = rs, !.qs = {}, !.ver = @ + 1]
    /\ End(t, <<"ok">>)
    /\ UNCHANGED prog
Collect(t) ==
    /\ Op(t).o = "gc"
    /\ I' = [I EXCEPT !.ty = <<>>, !.qs = {q \in @ : q[2] = 0}, !.ver = @ + 1]
    /\ End(t, <<"ok">>)
    /\ UNCHANGED prog
Next == \E t \in 1..NTh : More(t) /\ (Look(t) \/ Store(t) \/ Add(t) \/ Rule(t) \/ Collect(t))
Spec == Init /\ [][Next]_vars
\* threads which go on get to their end: nobody keeps anybody from it for ever
Fair == Spec /\ \A t \in 1..NTh : WF_vars(More(t) /\ (Look(t) \/ Store(t) \/ Add(t) \/ Rule(t) \/ Collect(t)))
AllEnd == <>(\A t \in 1..NTh : ~More(t))

Possible == S # {}
Sound == \A s \in S : StateOk(C, s)
\* what is remembered is right, of living types, and of one each
Remembered == /\ \A q \in I.qs : /\ q[2] = 0 \/ \E y \in Range0(I.ty) : y.a = q[2]
                                /\ LET a == Answer0(I.rs, q[1]) IN a.ok /\ a.l = TyOf(q[2])
              /\ \A i, j \in 1..Len(I.ty) : I.ty[i].ms = I.ty[j].ms => i = j
=============================================================================
