------------------------------ MODULE Predict ------------------------------
(***************************************************************************)
(* Predictions of a distributional model.  Parameter p of a row is the     *)
(* inverse link of the linear predictor formed from the configured columns *)
(* of the scaled row; point, median and quantile predictions are those of  *)
(* the law with these parameters.                                          *)
(***************************************************************************)
EXTENDS LinearModel, Links, Distributions

\* columns eq of a scaled row, after an intercept if icpt
ModelRow(z, eq, icpt) == LET c == [k \in DOMAIN eq |-> z[eq[k]]] IN IF icpt THEN <<RInt(1)>> \o c ELSE c
Contributions(x, b) == [j \in DOMAIN b |-> RMul(x[j], b[j])]
Predictor(x, b) == RDot(x, b)

\* linear predictors for which an inverse link is not saturated
Plain(lk, e) == CASE lk.kind = "log" -> RLeq(RAbs(e), RInt(30))
                  [] lk.kind = "logit" -> RLeq(RAbs(e), RInt(30))
                  [] lk.kind \in {"softplus", "logident"} -> RLeq(RInt(-25), e)
                  [] OTHER -> TRUE
Parameter(lk, e) == LinkInv(lk.kind, lk.v, e)

\* parameter vectors whose quantiles and moments are judged
Moderate(d, th) ==
  \A i \in DOMAIN th :
    LET v == th[i] IN
    CASE ParamKind(d, i) = "unit" -> RLeq(RFrac(1, 100), v) /\ RLeq(v, RFrac(99, 100))
      [] ParamKind(d, i) = "real" -> RLeq(RAbs(v), IF d = "JSU" /\ i = 3 THEN RInt(10) ELSE IF d = "LogNormal" THEN RInt(7) ELSE RTen(4))
      [] d = "JSU" /\ i = 4 -> RLeq(RFrac(3, 10), v) /\ RLeq(v, 10)
      [] d = "StudentT" /\ i = 3 -> RLeq(RFrac(1, 2), v) /\ RLeq(v, 1000)
      [] d \in UnitLaws -> RLeq(RTen(-3), v) /\ RLeq(v, 1000)
      [] d \in PositiveLaws /\ i = 2 -> RLeq(RFrac(3, 100), v) /\ RLeq(v, 2)
      [] d \in PositiveLaws /\ i = 1 -> RLeq(RFrac(3, 100), v) /\ RLeq(v, IF d = "InverseGaussian" THEN RInt(100) ELSE RTen(4))
      [] OTHER -> RLeq(RTen(-4), v) /\ RLeq(v, RTen(4))
=============================================================================
