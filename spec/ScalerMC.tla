------------------------------ MODULE ScalerMC ------------------------------
(***************************************************************************)
(* Every split of N rows into a fit and updates, for all weight patterns   *)
(* over Weights and the listed discounts: the recursion equals the         *)
(* definition.                                                             *)
(***************************************************************************)
EXTENDS Scaler, Json
CONSTANTS N, MinInit
VARIABLES g, ws, pos, sizes, s
vars == <<g, ws, pos, sizes, s>>

Xs == TLCEval([i \in 1..N |-> RInt(((i * i * 3) % 11) - 4)])
Weights == { RInt(0), RFrac(1, 2), RInt(2) }
Gammas == { RInt(1), RFrac(1, 2), RFrac(9, 10) }

Init == /\ g \in Gammas
        /\ ws \in { f \in [1..N -> Weights] : RLt(RInt(0), f[1]) }
        /\ \E k \in MinInit..N : pos = k /\ sizes = <<k>> /\ s = FitColumn(SubSeq(Xs, 1, k), SubSeq(ws, 1, k), g)
Update == \E k \in 1..(N - pos) :
   /\ s' = UpdateColumn(s, SubSeq(Xs, pos + 1, pos + k), SubSeq(ws, pos + 1, pos + k), g)
   /\ pos' = pos + k /\ sizes' = Append(sizes, k) /\ UNCHANGED <<g, ws>>
Next == Update
Spec == Init /\ [][Next]_vars

e == RTen(-40)
Seen(v) == SubSeq(v, 1, pos)
MeanIsMean == RClose(s.mean, WMean(Seen(Xs), Seen(ws), g), e, e)
VarIsVar == RClose(Var(s), WVar(Seen(Xs), Seen(ws), g), e, e)
TotalIsTotal == RClose(s.cum, WTotal(Seen(ws), g), e, e)
RoundTrip == RLt(RInt(0), WVar(Seen(Xs), Seen(ws), g)) =>
   RClose(Unstandardise(Standardise(RInt(7), s.mean, Var(s)), s.mean, Var(s)), RInt(7), e, e)
Emit == IF pos = N /\ g = RInt(1) /\ \A i \in 1..N : ws[i] = RInt(2)
        THEN PrintT("SCN|" \o ToJson([sizes |-> sizes])) ELSE TRUE
=============================================================================
