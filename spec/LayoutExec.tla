----------------------------- MODULE LayoutExec -----------------------------
(* Judges the layouts which were recorded from the library. *)
EXTENDS Layout, Json, IOUtils, TLC

Given == JsonDeserialize(IOEnv.VF_LAYOUTS)
VARIABLES n, fine
Init == n \in 1..Len(Given) /\ fine = TRUE
Next == fine /\ fine' = Sound(Given[n]) /\ (IF fine' THEN TRUE ELSE JsonSerialize(IOEnv.VF_OUT \o "/" \o ToString(n) \o ".json", [n |-> n])) /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, fine>>
=============================================================================
