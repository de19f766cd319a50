------------------------------- MODULE Explore ------------------------------
(***************************************************************************)
(* Every history of a small world: all operations of an alphabet in every  *)
(* state that can be reached with so many steps after a preamble. The      *)
(* conditions on steps are checked on every transition; the transitions    *)
(* are printed, so that scripts can be made which perform each of them     *)
(* with the implementation (those go through Exec like any others).        *)
(***************************************************************************)
EXTENDS Steps, Json, IOUtils, TLCExt

Fams == JsonDeserialize(IOEnv.VF_FAMILIES)   \* [u, nob, pre, alpha, depth, back]; back: the letters which may be one more step
Base == 720720

VARIABLES fam, w, n, viol
vars == <<fam, w, n, viol>>

\* types are meant by their position among those of the domain
Type(v, op) ==
    IF "t" \in DOMAIN op /\ op.t >= Base
    THEN LET ty == v.dm[op.d].ty k == op.t - Base IN
         IF k < Len(ty) THEN [op EXCEPT !.t = ty[k + 1].t] ELSE [op EXCEPT !.t = 0]
    ELSE op
Meant(v, op) == ("t" \in DOMAIN op /\ op.t >= Base) => op.t - Base <= Len(v.dm[op.d].ty)

\* worlds which differ only in the identities given to types and addresses behave alike
Canon(v) ==
    LET A == UNION {Range0(v.ob[o].as) : o \in {x \in 1..Len(v.ob) : v.ob[x].st = 1}}
        Rank(a) == Cardinality({b \in A : b < a})
    IN [dm |-> [d \in 1..Len(v.dm) |->
                  LET x == v.dm[d] IN <<x.fs, x.ms, x.ts, x.rs, MapS(x.ty, LAMBDA e : <<e.ms, e.n>>)>>],
        fr |-> v.fr, mr |-> v.mr,
        ob |-> [o \in 1..Len(v.ob) |->
                  LET x == v.ob[o] IN
                  IF x.st = 0 THEN <<>> ELSE <<x.d, TyIx(v, x.d, x.t), x.al, x.se, x.vs, MapS(x.as, Rank)>>]]
View == <<fam, Canon(w), viol>>
Id(v) == LET c == <<fam, Canon(v)>> IN <<TLCFP(c), TLCFP(<<c, 1>>)>>

RECURSIVE Run(_, _, _, _)
Run(C, v, ops, i) ==
    IF i > Len(ops) THEN v
    ELSE LET op == Type(v, ops[i]) IN Run(C, IF Pre(C, v, op) THEN Do(C, v, op).w ELSE v, ops, i + 1)
Init ==
    /\ fam \in 1..Len(Fams)
    /\ n = 0
    /\ viol = {}
    /\ w = Run(Fams[fam].u, W0(Fams[fam].u, Fams[fam].nob), Fams[fam].pre, 1)
    /\ PrintT(<<"VF_INIT", fam, Id(w)>>)
Next ==
    /\ n <= Fams[fam].depth
    /\ \E k \in IF n < Fams[fam].depth THEN 1..Len(Fams[fam].alpha) ELSE Range0(Fams[fam].back) :
        LET C == Fams[fam].u
            op == Type(w, Fams[fam].alpha[k])
            y == Do(C, w, op)
        IN /\ (Meant(w, Fams[fam].alpha[k]) /\ Pre(C, w, op)) = TRUE   \* (evaluated, not taken apart)
           /\ w' = y.w
           /\ viol' = Violated(C, w, op, y)
           /\ PrintT(<<"VF_EDGE", fam, Id(w), k, Id(y.w)>>)
    /\ n' = n + 1
    /\ UNCHANGED fam
Spec == Init /\ [][Next]_vars
NoneViolated == viol = {}
Short == [family |-> fam, steps |-> n, violated |-> viol]
=============================================================================
