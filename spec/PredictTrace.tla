---------------------------- MODULE PredictTrace ----------------------------
(***************************************************************************)
(* Conformance of predictions.  Events: enter (rows up to n are seen, the  *)
(* coefficients reported since) and predictions for query rows Q.  The     *)
(* specification holds the rows seen and forms scaled rows, designs,       *)
(* predictors, parameters and laws itself.                                 *)
(* Focus "C13" judges parameters, "C18" point and quantile predictions.    *)
(***************************************************************************)
EXTENDS TraceBase, Predict
CONSTANT Focus
VARIABLES tid, l, mom, coef, bad
vars == <<tid, l, mom, coef, bad>>
Init == tid \in DOMAIN Traces /\ l = 0 /\ mom = <<>> /\ coef = <<>> /\ bad = {}
NP(t) == Len(t.links)

Enter(t, e) == MomentsOf(SubSeq(t.X, 1, e.n), TLCEval(SubSeq(t.w, 1, e.n)), RSub(1, t.forget[1]), t.cols)

\* parameters: e.link, e.resp (one row per query row), e.contr (per parameter)
RowsOf(t, e, p) == TLCEval([i \in DOMAIN e.Q |-> TLCEval(ModelRow(ScaleRow(e.Q[i], mom, t.cols), t.eq[p], t.icpt[p]))])
Mag(x, b) == RAdd(RTen(-12), RDot([j \in DOMAIN b |-> RAbs(x[j])], [j \in DOMAIN b |-> RAbs(b[j])]))
Param(t, e, p) ==
  LET R == RowsOf(t, e, p)  b == coef[p]  lk == t.links[p]
      tol(i) == RMul(RTen(-8), Mag(R[i], b))
      link(i) == e.link[i][p]
      want(i) == Parameter(lk, link(i))
  IN  Chk(\A i \in DOMAIN R : RClose(link(i), Predictor(R[i], b), 0, tol(i)), "LinearPredictor")
      \cup Chk(\A i \in DOMAIN R : Plain(lk, link(i)) => RClose(e.resp[i][p], want(i), RTen(-9), RMul(RTen(-9), IF lk.kind = "sqrt" THEN RInt(0) ELSE RMin(RInt(1), RAbs(want(i))))), "InverseLink")
      \cup Chk(\A i \in DOMAIN R : (RLeq(RAbs(link(i)), RInt(300)) /\ (lk.kind = "sqrt" => RLt(RTen(-3), RAbs(link(i))))) => ParamOK(t.law, p, e.resp[i][p]), "InSupport")
      \cup Chk(Len(e.contr[p]) = Len(R) /\ \A i \in DOMAIN R :
                 LET c == Contributions(R[i], b) IN
                 /\ Len(e.contr[p][i]) = Len(b)
                 /\ \A j \in DOMAIN b : RClose(e.contr[p][i][j], c[j], 0, tol(i))
                 /\ RClose(RSum(e.contr[p][i]), link(i), 0, tol(i)), "Contributions")
Params(t, e) == IF Len(e.link) # Len(e.Q) \/ Len(e.resp) # Len(e.Q) \/ ~e.shape THEN {"Shape"}
                ELSE UNION { Param(t, e, p) : p \in 1..NP(t) } \cup Chk(e.same, "ContributionsChangeNothing")

\* the same rows predicted in other company, or with other values in columns outside the equation of p
Again(t, e) ==
  Chk(Len(e.out) = Len(e.ref) /\ \A i \in DOMAIN e.ref : \A p \in 1..NP(t) :
        (\E k \in DOMAIN e.params : e.params[k] = p) => RClose(e.out[i][p], e.ref[i][p], RTen(-9), RTen(-300)), e.name)

\* point predictions for parameter vectors e.th (as predicted)
Quantiles(t, e) ==
  IF e.rows # Len(e.th) \/ e.colsN # Len(e.q) \/ Len(e.out) # Len(e.th) THEN {"QuantileShape"}
  ELSE Chk(\A i \in DOMAIN e.th : Moderate(t.law, e.th[i]) => \A k \in DOMAIN e.q : QuantileOK(t.law, e.th[i], e.q[k], e.out[i][k]), "Quantile")
       \cup Chk(\A i \in DOMAIN e.th : Moderate(t.law, e.th[i]) => \A k, m \in DOMAIN e.q :
              RLeq(e.q[k], e.q[m]) => RLeq(e.out[i][k], RAdd(e.out[i][m], RMul(RTen(-9), RAdd(RAbs(e.out[i][m]), IF t.law \in RealLaws THEN e.th[i][2] ELSE RTen(-300))))), "QuantileOrder")
MeanTol(t, th) == RMul(RTen(-8), IF t.law \in RealLaws THEN RAdd(th[2], RAbs(RSub(Mean(t.law, th), th[1]))) ELSE RInt(0))
Points(t, e) ==
  IF ~e.shape THEN {"PointShape"}
  ELSE Chk(\A i \in DOMAIN e.th : (Moderate(t.law, e.th[i]) /\ HasMean(t.law, e.th[i])) => RClose(e.mean[i], Mean(t.law, e.th[i]), RTen(-8), MeanTol(t, e.th[i])), "Mean")
       \cup Chk(\A i \in DOMAIN e.th : Moderate(t.law, e.th[i]) => QuantileOK(t.law, e.th[i], RFrac(1, 2), e.median[i]), "Median")

Judge(t, e) ==
  CASE e.op = "params" -> IF Focus = "C13" THEN Params(t, e) ELSE {}
    [] e.op = "again" -> IF Focus = "C13" THEN Again(t, e) ELSE {}
    [] e.op = "point" -> IF Focus = "C18" THEN Points(t, e) ELSE {}
    [] e.op = "quantile" -> IF Focus = "C18" THEN Quantiles(t, e) ELSE {}

Step == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
        /\ LET t == Traces[tid]  e == t.ev[l + 1] IN
           IF e.exc # "" THEN UNCHANGED <<mom, coef>> /\ bad' = {"UnexpectedError:" \o e.op \o ":" \o e.exc}
           ELSE IF e.op = "enter" THEN mom' = TLCEval(Enter(t, e)) /\ coef' = e.coef /\ bad' = {}
           ELSE UNCHANGED <<mom, coef>> /\ bad' = TLCEval(Judge(t, e))
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == bad = {}
Report == ReportFor(tid, l, bad)
=============================================================================
