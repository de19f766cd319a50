-------------------------------- MODULE Exec ---------------------------------
(***************************************************************************)
(* Executes scripts of operations and writes down what the specification   *)
(* expects after each, to be compared with what the implementation does.   *)
(* Every script is one initial state; operations which the program must    *)
(* not perform in the state reached are left out.                          *)
(***************************************************************************)
EXTENDS Steps, Json, IOUtils

Univs == JsonDeserialize(IOEnv.VF_UNIVERSES)
Scripts == JsonDeserialize(IOEnv.VF_SCRIPTS)
OutDir == IOEnv.VF_OUT

VARIABLES idx, pos, w, out, viol
vars == <<idx, pos, w, out, viol>>
View == <<idx, pos>>

U == Univs[Scripts[idx].u]

\* Scripts may leave it open which object, type or mixin index is meant: numbers from 100 on
\* choose among those which there are (from 10000 on: among those with mixins, if there are any),
\* domain 0 is that of the object.
Pick(s, r) == IF s = <<>> THEN 0 ELSE s[(r % Len(s)) + 1]
Resolve(v, op) ==
    LET In(f) == f \in DOMAIN op
        living == SelectSeq(Idx(v.ob), LAMBDA o : v.ob[o].st = 1)
        free == SelectSeq(Idx(v.ob), LAMBDA o : v.ob[o].st = 0)
        full == SelectSeq(living, LAMBDA o : v.ob[o].t # 0)
        some(k) == IF k >= 10000 /\ full # <<>> THEN full ELSE living
        ob == IF ~In("ob") THEN 0 ELSE IF op.ob < 100 THEN op.ob
              ELSE Pick(IF op.o \in {"newE", "newT", "mv", "copy"} THEN free ELSE some(op.ob), op.ob)
        src == IF ~In("src") THEN 0 ELSE IF op.src < 100 THEN op.src ELSE Pick(some(op.src), op.src)
        d == IF ~In("d") THEN 0 ELSE IF op.d # 0 THEN op.d ELSE IF ob = 0 THEN 1 ELSE Max2(v.ob[ob].d, 1)
        t == IF ~In("t") THEN 0 ELSE IF op.t < 100 THEN op.t
             ELSE LET ts == MapS(v.dm[d].ty, LAMBDA x : x.t) IN
                  Pick(IF op.t \in 10000..20000 /\ ts # <<>> THEN ts ELSE ts \o <<0>>, op.t)
        i == IF ~In("i") THEN 0 ELSE IF op.i < 100 \/ ob = 0 THEN op.i
             ELSE Pick([k \in 1..Len(v.ob[ob].vs) |-> k - 1], op.i)
    IN [f \in DOMAIN op |-> CASE f = "ob" -> ob [] f = "src" -> src [] f = "d" -> d [] f = "t" -> t
                               [] f = "i" -> i [] OTHER -> op[f]]
Init ==
    /\ idx \in 1..Len(Scripts)
    /\ pos = 0
    /\ w = W0(U, Scripts[idx].nob)
    /\ out = <<>>
    /\ viol = {}
Step ==
    /\ pos < Len(Scripts[idx].ops)
    /\ LET C == U
           op == Resolve(w, Scripts[idx].ops[pos + 1])
           y == Do(C, w, op)
       IN IF Pre(C, w, op)
          THEN /\ w' = y.w
               /\ out' = Append(out, [op |-> op, r |-> y.r, x |-> y.x, e |-> y.e, b |-> y.b, obs |-> Obs(C, y.w)])
               \* calls through C give other result classes, but do the same
               /\ viol' = Violated(C, w, op, y)
          ELSE UNCHANGED <<w, out, viol>>
    /\ pos' = pos + 1
    /\ UNCHANGED idx
Finish ==
    /\ pos = Len(Scripts[idx].ops)
    /\ JsonSerialize(OutDir \o "/" \o ToString(idx) \o ".json", out)
    /\ pos' = pos + 1
    /\ UNCHANGED <<idx, w, out, viol>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
NoneViolated == viol = {}
Short == [script |-> idx, step |-> pos, violated |-> viol, op |-> IF out = <<>> THEN <<>> ELSE out[Len(out)].op]
=============================================================================
