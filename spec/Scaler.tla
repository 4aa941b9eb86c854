------------------------------- MODULE Scaler -------------------------------
(***************************************************************************)
(* The online scaler: discounted weighted mean and population variance of  *)
(* one column, and the row recursion that maintains them.                  *)
(***************************************************************************)
EXTENDS Discount

\* definitions over all values x (oldest first) with sample weights w
WTotal(w, g) == RSum(TLCEval(DWeights(w, g)))
WMean(x, w, g) == LET dw == TLCEval(DWeights(w, g)) IN RDiv(RDot(x, dw), RSum(dw))
WVar(x, w, g) ==
  LET dw == TLCEval(DWeights(w, g))
      m == RDiv(RDot(x, dw), RSum(dw))
      d == TLCEval([i \in DOMAIN x |-> RSub(x[i], m)])
  IN  RDiv(RDot3(d, d, dw), RSum(dw))

\* the state of one column
FitColumn(x, w, g) ==
  LET W == WTotal(w, g) IN [cum |-> W, mean |-> WMean(x, w, g), M |-> RMul(W, WVar(x, w, g))]
Var(s) == RDiv(s.M, s.cum)
RowStep(s, x, w, g) ==
  LET old == RMul(s.cum, g)
      cum == RAdd(old, w)
      m == RDiv(RAdd(RMul(s.mean, old), RMul(x, w)), cum)
  IN  [cum |-> cum, mean |-> m,
       M |-> RAdd(RMul(s.M, g), RMul(w, RMul(RSub(x, s.mean), RSub(x, m))))]
RECURSIVE UpdateColumn(_, _, _, _)
UpdateColumn(s, x, w, g) ==
  IF x = <<>> THEN s ELSE UpdateColumn(RowStep(s, x[1], w[1], g), Tail(x), Tail(w), g)

Standardise(z, m, v) == RDiv(RSub(z, m), RSqrt(v))
Unstandardise(z, m, v) == RAdd(RMul(z, RSqrt(v)), m)
=============================================================================
