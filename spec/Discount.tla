------------------------------ MODULE Discount ------------------------------
(***************************************************************************)
(* Exponentially discounted weighted sums, the sufficient statistics of    *)
(* every estimator.  g = 1 - forget.  A row seen a rows ago has weight     *)
(* w * g^a.                                                                *)
(***************************************************************************)
EXTENDS LinAlg

\* the weights of the rows whose sample weights are w, oldest first
DWeights(w, g) == LET n == Len(w) IN [i \in 1..n |-> RMul(w[i], RPowI(g, n - i))]

\* definition of the statistics: sums over all rows
GramOf(X, w, g) == WGram(X, TLCEval(DWeights(w, g)))
CrossOf(X, y, w, g) == WCross(X, y, TLCEval(DWeights(w, g)))
SumOf(y, w, g) == RDot(y, TLCEval(DWeights(w, g)))

\* the online step: discount by the number of new rows, add the new rows
StepGram(G, X, w, g) == MatAdd(MatScale(RPowI(g, Len(w)), G), GramOf(X, w, g))
StepCross(h, X, y, w, g) == VAdd(VScale(RPowI(g, Len(w)), h), CrossOf(X, y, w, g))

\* one row of the inverse, Sherman-Morrison
StepInverseRow(V, x, w, g) ==
  LET Vx == MatVec(V, x)
      d  == RAdd(g, RMul(w, RDot(x, Vx)))
  IN  MatScale(RDiv(1, g), MatAdd(V, MatScale(RNeg(RDiv(w, d)), Outer(Vx, Vx))))
RECURSIVE StepInverse(_, _, _, _)
StepInverse(V, X, w, g) ==
  IF X = <<>> THEN V ELSE StepInverse(StepInverseRow(V, X[1], w[1], g), Tail(X), Tail(w), g)
=============================================================================
