---------------------------- MODULE CoordDescent ----------------------------
(***************************************************************************)
(* Coordinate descent on sufficient statistics.  A problem is a record     *)
(* [G, h, reg, lam, al, lo, hi]: Gram matrix, cross products, which        *)
(* coefficients are penalised, penalty, L1 share, box bounds.              *)
(***************************************************************************)
EXTENDS LinAlg

Soft(v, t) == IF RLt(t, RAbs(v)) THEN RMul(RSign(v), RSub(RAbs(v), t)) ELSE RInt(0)
Clip(v, lo, hi) == RMin(RMax(v, lo), hi)

\* twice the penalised least-squares objective (up to a constant)
Objective(P, b) ==
  RAdd(RSub(RDot(b, MatVec(P.G, b)), RMul(2, RDot(P.h, b))),
       RSum([j \in DOMAIN b |-> IF P.reg[j]
             THEN RAdd(RMul(RMul(RMul(2, P.lam), P.al), RAbs(b[j])),
                       RMul(RMul(P.lam, RSub(1, P.al)), RMul(b[j], b[j])))
             ELSE RInt(0)]))

\* what is left of the cross product of j when the others are explained by b
Partial(P, b, j) == RAdd(RSub(P.h[j], RDot(P.G[j], b)), RMul(P.G[j][j], b[j]))

\* the value of coefficient j that minimises the objective inside its bounds, given the others
CoordMin(P, b, j) ==
  LET u == Partial(P, b, j)
      v == IF P.reg[j] THEN RDiv(Soft(u, RMul(P.al, P.lam)), RAdd(P.G[j][j], RMul(P.lam, RSub(1, P.al))))
                       ELSE RDiv(u, P.G[j][j])
  IN  Clip(v, P.lo[j], P.hi[j])

Visit(P, b, j, first) == IF first \/ ~REq(b[j], 0) 
  THEN LET c == TLCEval(CoordMin(P, b, j)) IN TLCEval([k \in DOMAIN b |-> IF k = j THEN c ELSE b[k]]) ELSE b

RECURSIVE SweepFrom(_, _, _, _)
SweepFrom(P, b, order, first) ==
  IF order = <<>> THEN b
  ELSE SweepFrom(P, TLCEval(Visit(P, b, Head(order), first)), Tail(order), first)
Cyclic(n) == [j \in 1..n |-> j]
Sweep(P, b, first) == TLCEval(SweepFrom(P, b, Cyclic(Len(b)), first))

Change(b, a) == VMaxAbs(VSub(b, a))
Converged(b, a, tol) == RLeq(Change(b, a), RMul(tol, VMaxAbs(b)))

\* rounding may decide a comparison that is this close
Slack == RTen(-6)
Surely(b, a, tol)  == RLeq(Change(b, a), RMul(RMul(tol, RSub(1, Slack)), VMaxAbs(b)))
Perhaps(b, a, tol) == RLeq(Change(b, a), RAdd(RMul(RMul(tol, RAdd(1, Slack)), VMaxAbs(b)), RMul(RTen(-14), VMaxAbs(b))))

\* The results coordinate descent may return from b: the state after the first sweep that converged or
\* after the last allowed sweep (more than one value only when a comparison is too close to call).
RECURSIVE SolveFrom(_, _, _, _, _)
SolveFrom(P, b, tol, limit, i) ==
  LET n == Sweep(P, b, i = 1) IN
  IF i >= limit \/ Surely(n, b, tol) THEN {n}
  ELSE (IF Perhaps(n, b, tol) THEN {n} ELSE {}) \cup SolveFrom(P, n, tol, limit, i + 1)
CDSolve(P, b, tol, maxit) == SolveFrom(P, b, tol, maxit + 1, 1)

InBounds(P, b) == \A j \in DOMAIN b : RLeq(P.lo[j], b[j]) /\ RLeq(b[j], P.hi[j])
=============================================================================
