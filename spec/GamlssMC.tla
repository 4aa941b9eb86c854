------------------------------ MODULE GamlssMC ------------------------------
(***************************************************************************)
(* The control of a distributional fit or update, with the deviance after  *)
(* every inner iteration chosen freely from a few levels.  Checked for all *)
(* settings and all deviance histories: the iteration budgets, that every  *)
(* parameter is treated once per round in order, that a fit only moves its *)
(* fitted values through steps that do not raise the deviance, that after  *)
(* the first round no parameter leaves a fit worse than it found it, and   *)
(* the reasons for stopping.                                               *)
(***************************************************************************)
EXTENDS Gamlss, Json
CONSTANTS MaxOuter, MaxInner, NParam
VARIABLES S, kind, single, min, o, pos, i, c, com, gd, gdOld, seen, total, why
vars == <<S, kind, single, min, o, pos, i, c, com, gd, gdOld, seen, total, why>>
Levels == {0, 1, 10, 20}
Settings == { [maxOuter |-> a, maxInner |-> b, absI |-> 2, relI |-> 0, absO |-> 2, relO |-> 0] : a \in 1..MaxOuter, b \in {1, 2, MaxInner} }
Top == 1000

Init == /\ S \in Settings /\ kind \in {"fit", "update"} /\ single \in {0, 1, MaxOuter + 1} /\ min \in {1, 2}
        /\ o = 1 /\ pos = 1 /\ i = 0 /\ com \in Levels /\ gd = com /\ gdOld = com + Top
        /\ c = [start |-> com, old |-> com, half |-> 0]
        /\ seen = [p \in 1..NParam |-> 0] /\ total = 0 /\ why = "run"

Iterate == /\ why = "run"
           /\ \E dv \in Levels : \E r \in InnerOutcomes(kind, S, single, o, i, c, dv, 0) :
                /\ total' = total + 1
                /\ IF ~r.stop
                   THEN /\ i' = i + 1
                        /\ c' = [c EXCEPT !.half = r.half, !.old = IF r.rose THEN @ ELSE dv]
                        /\ UNCHANGED <<o, pos, com, gd, gdOld, seen, why>>
                   ELSE LET com1 == IF r.keep THEN dv ELSE com IN
                        /\ com' = com1 /\ seen' = [seen EXCEPT ![pos] = @ + 1]
                        /\ c' = [start |-> com1, old |-> com1, half |-> 0] /\ i' = 0
                        /\ IF pos < NParam THEN pos' = pos + 1 /\ UNCHANGED <<o, gd, gdOld, why>>
                           ELSE /\ gd' = dv
                                /\ \E st \in OuterStops(kind, S, min, o, gd, dv, 0) :
                                     IF st THEN why' = (IF o = S.maxOuter THEN "budget" ELSE "early") /\ UNCHANGED <<o, pos, gdOld>>
                                     ELSE o' = o + 1 /\ pos' = 1 /\ gdOld' = gd /\ UNCHANGED why
           /\ UNCHANGED <<S, kind, single, min>>
Next == Iterate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Budgets == o <= S.maxOuter /\ i < Budget(S, single, o) /\ total <= S.maxOuter * NParam * S.maxInner
OncePerRound == \A p \in 1..NParam : seen[p] = (IF p < pos \/ why # "run" THEN o ELSE o - 1)
Progress == kind = "fit" => RLeq(c.old, c.start)
MinRounds == why = "early" => o >= min
NeverWorse == [][(kind = "fit" /\ o >= 2 /\ com' # com) => com' < com]_vars
Terminates == <>(why # "run")
Emit == total = 0 => PrintT("SCN|" \o ToJson([maxOuter |-> S.maxOuter, maxInner |-> S.maxInner, kind |-> kind, single |-> single, min |-> min]))
=============================================================================
