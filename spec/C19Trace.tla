------------------------------ MODULE C19Trace ------------------------------
(***************************************************************************)
(* Converged fits are stationary.  An event is one initial fit: the        *)
(* coefficients reported, the number of rounds, the coefficients proposed  *)
(* by the last iteration of every parameter and the fitted values the last *)
(* round started from.  A fit has converged when it stopped by itself,     *)
(* without raising the deviance in its last round and without turning down *)
(* what its last iterations proposed.  The gradient of the weighted log-   *)
(* likelihood with respect to a coefficient is measured in units of its    *)
(* standard error (the root of the sum of squared contributions).          *)
(***************************************************************************)
EXTENDS TraceBase, Gamlss
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = {}

NP(t) == Len(t.links)
Limit == RFrac(5, 1000)
\* fitted values where the implementation's limits and double precision do not matter
Sane(t, eta) == \A p \in 1..NP(t) : \A i \in DOMAIN eta[p] :
   RIsFinite(eta[p][i]) /\ RLeq(RAbs(eta[p][i]), IF t.links[p].kind \in {"identity", "sqrt"} THEN RTen(6) ELSE RInt(8))
Degenerate(law, th) == \/ law = "JSU" /\ \E i \in DOMAIN th : RLt(RInt(50), RAbs(th[i][3])) \/ RLt(RInt(50), th[i][4])
                       \/ law = "StudentT" /\ \E i \in DOMAIN th : RLt(RInt(1000), th[i][3])
Judge(t, e) ==
  LET n == Len(t.y)
      mom == MomentsOf(t.X, t.w, RSub(1, t.forget[1]), t.cols)
      D == TLCEval([p \in 1..NP(t) |-> EqDesign(t.X, mom, t.cols, t.eq[p], t.icpt[p])])
      shape == Len(e.coef) = NP(t) /\ \A p \in 1..NP(t) : Len(e.coef[p]) = Len(D[p][1])
      eta == TLCEval([p \in 1..NP(t) |-> TLCEval(MatVec(D[p], e.coef[p]))])
      th == TLCEval([i \in 1..n |-> TLCEval([p \in 1..NP(t) |-> LinkInv(t.links[p].kind, t.links[p].v, eta[p][i])])])
      f == TLCEval([p \in 1..NP(t) |-> TLCEval(DWeights(t.w, RSub(1, t.forget[p])))])
      dv(x) == Deviance(LogLiks(t.law, t.y, x), t.w)
      settled == \A p \in 1..NP(t) : Len(e.prop[p]) = Len(e.coef[p]) /\ VClose(e.prop[p], e.coef[p], RTen(-6), RMul(RTen(-6), RAdd(RTen(-3), VMaxAbs(e.coef[p]))))
      fell == LET a == dv(th)  b == dv(e.last) IN RIsFinite(a) /\ RIsFinite(b) /\ RLeq(a, RAdd(b, RTen(-8)))
      \* contributions of the rows to the gradient of coefficient j of parameter p
      u(p) == TLCEval([i \in 1..n |-> TLCEval(RMul(f[p][i], RMul(Score(t.law, p, t.y[i], th[i]), LinkInvD(t.links[p].kind, t.links[p].v, eta[p][i]))))])
      flat(p) == LET v == u(p) IN \A j \in DOMAIN e.coef[p] :
        LET x == Col(D[p], j)  g == RDot(v, x)  v2 == TLCEval([i \in 1..n |-> RMul(v[i], x[i])])
        IN  RLeq(RAbs(g), RMul(Limit, RSqrt(RDot(v2, v2))))
  IN  IF ~shape THEN {"Shape"}
      ELSE IF e.rounds >= e.max \/ ~settled \/ ~Sane(t, eta) \/ Degenerate(t.law, th) \/ ~fell THEN {}
      ELSE UNION { Chk(flat(p), "Stationary") : p \in 1..NP(t) }

Step == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
        /\ LET t == Traces[tid]  e == t.ev[l + 1] IN
           bad' = TLCEval(IF e.exc # "" THEN {} ELSE Judge(t, e))
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == bad = {}
Report == ReportFor(tid, l, bad)
=============================================================================
