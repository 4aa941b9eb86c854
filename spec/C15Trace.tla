------------------------------ MODULE C15Trace ------------------------------
(***************************************************************************)
(* Conformance of the derivatives of every law.  Scores are compared with  *)
(* the derivative of the specification's log-density; the curvature and    *)
(* the cross derivatives in expectation with the products of the scores.   *)
(***************************************************************************)
EXTENDS TraceBase, Distributions
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = {}

Size(d, th) == CASE d \in UnitLaws -> RAdd(1, Prec(th))
                 [] d \in {"Gamma", "ZeroAdjustedGamma", "InverseGamma", "InverseGaussian"} -> RAdd(1, RDiv(1, Sq(th[2])))
                 [] OTHER -> RInt(1)
\* the unit of a score: one over the distance on which the law changes
Unit(d, i, th) ==
  LET v == th[i] IN
  RDiv(Size(d, th), CASE ParamKind(d, i) = "real" -> IF i = 1 /\ NParams(d) > 1 THEN th[2] ELSE RInt(1)
                      [] ParamKind(d, i) = "unit" -> RMin(v, RSub(1, v))
                      [] OTHER -> v)
ScoreOK(d, e) == \A k \in DOMAIN e.y :
   RClose(e.out[k], Score(d, e.i, e.y[k], e.th[k]), RTen(-8), RMul(RTen(-10), Unit(d, e.i, e.th[k])))

\* weights of the nodes and, behind them, of the atoms
Info(d, e) ==
  LET th == e.th
      m == 2 * e.kmax + 1
      n == Len(e.y)
      NodeY(k) == IF k <= m THEN Node(d, th, k - 1 - e.kmax, e.den) ELSE <<RInt(e.atoms[k - m]), RInt(e.den)>>
      nd == TLCEval([k \in 1..n |-> TLCEval(NodeY(k))])
      w == TLCEval([k \in 1..n |-> RDiv(RMul(RExp(LogPdf(d, nd[k][1], th)), nd[k][2]), e.den)])
      live == {k \in 1..n : RLt(RTen(-40), w[k])}
      s == TLCEval([i \in 1..NParams(d) |-> TLCEval([k \in 1..n |-> IF k \in live THEN Score(d, i, nd[k][1], th) ELSE RInt(0)])])
      G(i, j) == RDot3(w, s[i], s[j])
      \* the values of the implementation at the nodes that matter
      V(o) == TLCEval([k \in 1..n |-> IF k \in live THEN o.v[k] ELSE RInt(0)])
      resolved == /\ RClose(RSum(w), 1, RTen(-7), 0)
                  /\ \A i \in 1..NParams(d) : RLeq(RAbs(RDot(w, s[i])), RMul(RTen(-6), RSqrt(G(i, i))))
                  /\ \A k \in live : RClose(e.y[k], nd[k][1], RTen(-9), RMul(RTen(-9), IF d \in RealLaws THEN th[2] ELSE 0)) \/ RLt(w[k], RTen(-9))
  IN IF ~resolved THEN {"(unresolved)"}
     ELSE UNION { LET o == e.out[q] IN
                  IF Len(o.v) # n THEN {"Shape"}
                  ELSE LET got == RDot(w, V(o))  want == RNeg(G(o.i, o.j))
                           tol == RMul(RTen(-5), RSqrt(RMul(G(o.i, o.i), G(o.j, o.j))))
                       IN IF RLeq(RAbs(RSub(got, want)), tol) THEN {}
                          ELSE {(IF o.i = o.j THEN "Information" ELSE IF RLeq(RAbs(RAdd(got, want)), tol) THEN "CrossInformationSign" ELSE "CrossInformation")}
                  : q \in DOMAIN e.out }

Judge(d, e) ==
  CASE e.op = "score" -> IF Len(e.out) # Len(e.y) THEN {"Shape"} ELSE Chk(ScoreOK(d, e), "Score")
    [] e.op = "curv" -> IF Len(e.out) # Len(e.y) THEN {"Shape"} ELSE Chk(\A k \in DOMAIN e.out : RIsFinite(e.out[k]) /\ RLeq(e.out[k], 0), "CurvatureSign")
    [] e.op = "cross" -> IF Len(e.out) = 0 THEN {"Shape"} ELSE Chk(VFinite(e.out), "CrossFinite") \cup Chk(e.out = e.swapped, "CrossSymmetric")
    [] e.op = "info" -> Info(d, e) \ {"(unresolved)"}

Step == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
        /\ LET t == Traces[tid]  e == t.ev[l + 1] IN
           bad' = TLCEval(IF e.op = "bad" THEN Chk(e.exc = "ValueError", "RejectsUnknownParameter")
                          ELSE IF e.exc # "" THEN {"UnexpectedError:" \o e.op \o ":" \o e.exc} ELSE Judge(t.law, e))
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == bad = {}
Report == ReportFor(tid, l, bad)
=============================================================================
