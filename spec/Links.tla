------------------------------- MODULE Links -------------------------------
(***************************************************************************)
(* The link functions: g maps a distribution parameter to the linear       *)
(* predictor.  kind names the family, v the shift of the shifted links     *)
(* (0 for the others).                                                     *)
(***************************************************************************)
EXTENDS LinAlg

Kinds == {"identity", "log", "logident", "softplus", "sqrt", "logit"}

\* g
Link(kind, v, x) ==
  LET z == RSub(x, v) IN
  CASE kind = "identity" -> x
    [] kind = "log"      -> RLog(z)
    [] kind = "logident" -> IF RLeq(z, 1) THEN RLog(z) ELSE RSub(z, 1)
    [] kind = "softplus" -> RAdd(z, RLog(RSub(1, RExp(RNeg(z)))))       \* log(exp(z) - 1)
    [] kind = "sqrt"     -> RSqrt(z)
    [] kind = "logit"    -> RLog(RDiv(z, RSub(1, z)))
\* the inverse of g
LinkInv(kind, v, e) ==
  CASE kind = "identity" -> e
    [] kind = "log"      -> RAdd(v, RExp(e))
    [] kind = "logident" -> IF RLeq(e, 0) THEN RExp(e) ELSE RAdd(e, 1)
    [] kind = "softplus" -> RAdd(v, IF RLeq(e, 0) THEN RLog1p(RExp(e)) ELSE RAdd(e, RLog1p(RExp(RNeg(e)))))
    [] kind = "sqrt"     -> RAdd(v, RMul(e, e))
    [] kind = "logit"    -> IF RLeq(e, 0) THEN RDiv(RExp(e), RAdd(1, RExp(e))) ELSE RDiv(1, RAdd(1, RExp(RNeg(e))))
\* their derivatives
LinkInvD(kind, v, e) ==
  CASE kind = "identity" -> RInt(1)
    [] kind = "log"      -> RExp(e)
    [] kind = "logident" -> IF RLeq(e, 0) THEN RExp(e) ELSE RInt(1)
    [] kind = "softplus" -> IF RLeq(e, 0) THEN RDiv(RExp(e), RAdd(1, RExp(e))) ELSE RDiv(1, RAdd(1, RExp(RNeg(e))))
    [] kind = "sqrt"     -> RMul(2, e)
    [] kind = "logit"    -> LET q == RExp(RNeg(RAbs(e))) IN RDiv(q, RMul(RAdd(1, q), RAdd(1, q)))
LinkD(kind, v, x) ==
  LET z == RSub(x, v) IN
  CASE kind = "identity" -> RInt(1)
    [] kind = "log"      -> RDiv(1, z)
    [] kind = "logident" -> IF RLeq(z, 1) THEN RDiv(1, z) ELSE RInt(1)
    [] kind = "softplus" -> RDiv(1, RSub(1, RExp(RNeg(z))))
    [] kind = "sqrt"     -> RDiv(1, RMul(2, RSqrt(z)))
    [] kind = "logit"    -> RDiv(1, RMul(z, RSub(1, z)))
LinkDD(kind, v, x) ==
  LET z == RSub(x, v) IN
  CASE kind = "identity" -> RInt(0)
    [] kind = "log"      -> RNeg(RDiv(1, RMul(z, z)))
    [] kind = "logident" -> IF RLeq(z, 1) THEN RNeg(RDiv(1, RMul(z, z))) ELSE RInt(0)
    [] kind = "softplus" -> LET q == RExp(RNeg(z)) IN RNeg(RDiv(q, RMul(RSub(1, q), RSub(1, q))))
    [] kind = "sqrt"     -> RNeg(RDiv(1, RMul(4, RMul(z, RSqrt(z)))))
    [] kind = "logit"    -> LET p == RMul(z, RSub(1, z)) IN RNeg(RDiv(RSub(1, RMul(2, z)), RMul(p, p)))
=============================================================================
