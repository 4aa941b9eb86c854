---------------------------- MODULE SettingsMC ----------------------------
(***************************************************************************)
(* Every form in which a per-parameter setting can be given for 1..MaxNP   *)
(* distribution parameters: a single value, a mapping naming any subset of *)
(* the parameters with its keys in any order, or nothing at all (all       *)
(* defaults).  The design resolves a mapping by writing its entries in key *)
(* order and then filling the missing parameters one by one; it must       *)
(* arrive at Resolve.  Equivalent forms are emitted as groups: forms with  *)
(* the same resolution have to give the same model.                        *)
(***************************************************************************)
EXTENDS Estimator, Json
CONSTANTS MaxNP, Values
VARIABLES np, form, i, p, res
vars == <<np, form, i, p, res>>
Dflt == "d"
Vals == Values \cup {Dflt}
D(n) == [q \in 1..n |-> Dflt]
Orders(n) == UNION { { s \in [1..k -> 1..n] : \A a, b \in 1..k : a # b => s[a] # s[b] } : k \in 0..n }
Maps(n) == UNION { { [form |-> "map", m |-> [k \in 1..Len(o) |-> [p |-> o[k], v |-> x[k]]]] : x \in [1..Len(o) -> Vals] } : o \in Orders(n) }
Forms(n) == { [form |-> "single", v |-> x] : x \in Vals } \cup Maps(n)

None == "none"
Init == /\ np \in 1..MaxNP /\ form \in Forms(np) /\ i = 0 /\ p = 0
        /\ res = [q \in 1..np |-> None]
\* the entries of the mapping, in the order of its keys
Entry == /\ form.form = "map" /\ i < Len(form.m) /\ i' = i + 1 /\ res' = [res EXCEPT ![form.m[i + 1].p] = form.m[i + 1].v] /\ UNCHANGED <<np, form, p>>
\* then parameter by parameter: fill what is missing, or repeat the single value
Fill == /\ IF form.form = "single" THEN TRUE ELSE i = Len(form.m)
        /\ p < np /\ p' = p + 1
        /\ res' = [res EXCEPT ![p + 1] = IF form.form = "single" THEN form.v ELSE IF @ = None THEN Dflt ELSE @]
        /\ UNCHANGED <<np, form, i>>
Next == Entry \/ Fill
Spec == Init /\ [][Next]_vars
Finished == p = np
Resolved == Finished => res = Resolve(form, np, D(np))
\* only the parameter that is named changes
OnlyNamed == [][\A q \in 1..np : res'[q] # res[q] => IF p' = p THEN q = form.m[i'].p ELSE q = p']_vars
Emit == IF Finished THEN PrintT("SCN|" \o ToJson([np |-> np, form |-> form, res |-> res])) ELSE TRUE
=============================================================================
