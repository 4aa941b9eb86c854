------------------------------ MODULE C04Trace ------------------------------
(***************************************************************************)
(* Conformance of coordinate descent and ridge estimation.  A trace is one *)
(* problem; its events are calls with growing iteration limits.            *)
(* state: B, the coefficients after each number of sweeps seen so far;     *)
(* fin, the number of sweeps after which it converged (0: not yet).        *)
(***************************************************************************)
EXTENDS TraceBase, CoordDescent
VARIABLES tid, l, B, fin, bad
vars == <<tid, l, B, fin, bad>>
Init == tid \in DOMAIN Traces /\ l = 0 /\ B = <<>> /\ fin = 0 /\ bad = {}

Prob(t) == [G |-> t.G, h |-> t.h, reg |-> t.reg, lam |-> t.lam, al |-> t.al, lo |-> t.lo, hi |-> t.hi]
\* the size of the terms that cancel in a coordinate update, and how far a change of size one carries
Scale(P, b) == RAdd(RTen(-3), VMaxAbs(b))
AbsRow(P, j) == [k \in DOMAIN P.h |-> RAbs(P.G[j][k])]
Magnitude(P, b) == RAdd(VMaxAbs(b), VMaxAbs([j \in DOMAIN b |->
   RDiv(RAdd(RAbs(P.h[j]), RDot(AbsRow(P, j), [k \in DOMAIN b |-> RAbs(b[k])])), P.G[j][j])]))
Gain(P) == RAdd(1, VMaxAbs([j \in DOMAIN P.h |-> RDiv(RSum(AbsRow(P, j)), P.G[j][j])]))

Common(t, P, e) ==
  Chk(VFinite(e.beta) /\ Len(e.beta) = Len(t.start), "Finite")
  \cup Chk(InBounds(P, e.beta), "Bounds")
  \cup Chk(~e.mutated, "InputsUnchanged")
Descends(t, P, e) ==
  IF ~InBounds(P, t.start) THEN {}
  ELSE LET f0 == Objective(P, t.start)  f1 == Objective(P, e.beta)
           s == RAdd(RAdd(RAbs(f0), RAbs(f1)), RMul(2, RAbs(RDot(P.h, e.beta))))
       IN  Chk(RLeq(f1, RAdd(f0, RMul(RTen(-9), s))), "ObjectiveNotRaised")

\* cyclic order, the solver itself: known sweeps are replayed exactly
JudgeCyclic(t, P, e) ==
  LET it == e.it
      prev == IF it <= 1 THEN t.start ELSE B[it - 1]
      next == Sweep(P, prev, it = 1)
      known == it <= Len(B)
  IN  IF it < 1 \/ it > e.maxit + 1 THEN [B |-> B, fin |-> fin, bad |-> {"SweepLimit"}]
      ELSE IF it > Len(B) + 1 THEN [B |-> B, fin |-> fin, bad |-> {"SweepSkipped"}]
      ELSE [B |-> IF known THEN B ELSE Append(B, e.beta),
            fin |-> IF fin = 0 /\ Surely(e.beta, prev, t.tol) THEN it ELSE fin,
            bad |-> Chk(VClose(e.beta, next, 0, RMul(RTen(-10), RAdd(Magnitude(P, prev), Magnitude(P, next)))), "SweepResult")
                    \cup Chk(fin = 0 \/ it <= fin, "StopsWhenConverged")
                    \cup Chk(it >= e.maxit \/ Perhaps(e.beta, prev, t.tol), "StopsOnlyWhenConverged")]

\* any order: the first sweep is in order, results are descending fixpoints
JudgeRandom(t, P, e) ==
  (IF e.it = 1 THEN Chk(VClose(e.beta, Sweep(P, t.start, TRUE), 0, RMul(RTen(-10), RAdd(Magnitude(P, t.start), Magnitude(P, e.beta)))), "FirstSweep") ELSE {})
  \cup Chk(e.it >= 1 /\ e.it <= e.maxit + 1, "SweepLimit")
  \cup (IF e.it <= e.maxit
        THEN Chk(\A j \in DOMAIN e.beta : REq(e.beta[j], 0) \/
                 RClose(e.beta[j], CoordMin(P, e.beta, j), 0, RMul(RMul(RAdd(t.tol, RTen(-9)), Gain(P)), Scale(P, e.beta))), "FixpointIsOptimal")
        ELSE {})

\* ridge estimation run to convergence
JudgeRidge(t, P, e) ==
  LET S == TLCEval([i \in DOMAIN P.G |-> [j \in DOMAIN P.G |-> IF i = j /\ P.reg[j] THEN RAdd(P.G[i][j], P.lam) ELSE P.G[i][j]]])
      free == \A j \in DOMAIN e.beta : ~RIsFinite(P.lo[j]) /\ ~RIsFinite(P.hi[j])
      want == TLCEval(Solve(S, P.h))
  IN  Chk(\A j \in DOMAIN e.beta : REq(e.beta[j], 0) \/
                 RClose(e.beta[j], CoordMin(P, e.beta, j), 0, RMul(RTen(-6), Scale(P, e.beta))), "FixpointIsOptimal")
      \cup (IF free /\ want # <<>> THEN Chk(VClose(e.beta, want, RTen(-6), RMul(RTen(-6), Scale(P, want))), "RidgeSolution") ELSE {})

Step == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
        /\ LET t == Traces[tid]  e == t.ev[l + 1]  P == Prob(t) IN
           IF e.exc # "" THEN UNCHANGED <<B, fin>> /\ bad' = {"UnexpectedError:" \o e.exc}
           ELSE IF Common(t, P, e) # {} THEN UNCHANGED <<B, fin>> /\ bad' = Common(t, P, e)
           ELSE CASE t.kind = "cyclic" ->
                     LET j == TLCEval(JudgeCyclic(t, P, e)) IN B' = j.B /\ fin' = j.fin /\ bad' = TLCEval(j.bad \cup Descends(t, P, e))
                  [] t.kind = "random" -> UNCHANGED <<B, fin>> /\ bad' = TLCEval(JudgeRandom(t, P, e) \cup Descends(t, P, e))
                  [] t.kind = "ridge"  -> UNCHANGED <<B, fin>> /\ bad' = TLCEval(JudgeRidge(t, P, e) \cup Descends(t, P, e))
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == bad = {}
Report == ReportFor(tid, l, bad)
=============================================================================
