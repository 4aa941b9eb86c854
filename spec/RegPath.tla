------------------------------ MODULE RegPath ------------------------------
(***************************************************************************)
(* Regularisation paths: the grid of penalties, the start value of every   *)
(* row, and the rows coordinate descent may return.                        *)
(***************************************************************************)
EXTENDS CoordDescent

\* the smallest penalty at which a lasso has only zeros among the penalised coefficients
\* (at most one coefficient is unpenalised)
Unpenalised(reg) == { j \in DOMAIN reg : ~reg[j] }
LambdaMax(G, h, reg) ==
  IF Unpenalised(reg) = {} THEN VMaxAbs(h)
  ELSE LET u == CHOOSE j \in Unpenalised(reg) : TRUE
           c == RDiv(h[u], G[u][u])
       IN  VMaxAbs([j \in DOMAIN h |-> IF j = u THEN RInt(0) ELSE RSub(h[j], RMul(G[u][j], c))])

\* geometric from lmax to lmax * ratio with n points
Lambda(lmax, ratio, n, i) == IF n = 1 \/ i = 1 THEN lmax ELSE RMul(lmax, RPow(ratio, RDiv(RInt(i - 1), RInt(n - 1))))

Average(a, b) == [j \in DOMAIN a |-> RDiv(RAdd(a[j], b[j]), 2)]
\* above: the row before in this path (zeros for the first); same: this row of the previous path
StartRow(mode, above, same) ==
  CASE mode = "previous_lambda" -> above
    [] mode = "previous_fit"    -> same
    [] mode = "average"         -> Average(above, same)

NonZero(b) == { j \in DOMAIN b : ~REq(b[j], 0) }
NNZ(b) == LET RECURSIVE Count(_)
              Count(j) == IF j = 0 THEN 0 ELSE Count(j - 1) + (IF REq(b[j], 0) THEN 0 ELSE 1)
          IN  Count(Len(b))
Copied(start, early) == early > 0 /\ NNZ(start) >= early
Rows(P, start, early, tol, maxit) == IF Copied(start, early) THEN {start} ELSE CDSolve(P, start, tol, maxit)
=============================================================================
