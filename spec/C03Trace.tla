------------------------------ MODULE C03Trace ------------------------------
(***************************************************************************)
(* Conformance of OnlineLinearModel with least squares.                    *)
(* state: D, the design rows that entered so far; coef, the solution; ok,  *)
(* all Gram matrices so far were well conditioned.                         *)
(***************************************************************************)
EXTENDS TraceBase, LinearModel
VARIABLES tid, l, D, n, ok, bad
vars == <<tid, l, D, n, ok, bad>>
Init == tid \in DOMAIN Traces /\ l = 0 /\ D = <<>> /\ n = 0 /\ ok = TRUE /\ bad = {}

Mom(t, m) == MomentsOf(SubSeq(t.X, 1, m), TLCEval(SubSeq(t.w, 1, m)), RSub(1, t.forget), t.cols)
CoefOf(t, DD, m) == TLCEval(WLS(DD, SubSeq(t.y, 1, m), TLCEval(SubSeq(t.w, 1, m)), RSub(1, t.forget)))

JudgeEnter(t, e) ==
  LET g == RSub(1, t.forget)
      w == TLCEval(SubSeq(t.w, 1, e.n))
      B == Design(SubSeq(t.X, n + 1, e.n), Mom(t, e.n), t.cols, t.icpt)
      DD == TLCEval(D \o B)
      G == TLCEval(WGram(DD, TLCEval(DWeights(w, g))))
      V == TLCEval(Inverse(G))
      well == V # <<>> /\ RLeq(RMul(MatMaxAbs(G), MatMaxAbs(V)), RTen(7))
      good == ok /\ well
      b == TLCEval(IF good THEN CoefOf(t, DD, e.n) ELSE <<>>)
  IN  [D |-> DD, ok |-> good,
       bad |-> IF e.exc # "" THEN (IF good THEN {"UnexpectedError:" \o e.exc} ELSE {})
               ELSE (IF good THEN Chk(Len(e.coef) = Len(b) /\ VClose(e.coef, b, RTen(-6), RMul(RTen(-6), RAdd(RTen(-3), VMaxAbs(b)))), "Coefficients") ELSE {})
                    \cup Chk(RClose(e.nobs, RSum(w), RTen(-11), 0), "ObservationCount")]

Pred(t, Z) == MatVec(Design(Z, Mom(t, n), t.cols, t.icpt), CoefOf(t, D, n))
JudgePredict(t, e) ==
  IF ~ok THEN {} ELSE IF e.exc # "" THEN {"UnexpectedError:" \o e.exc}
  ELSE LET DZ == Design(e.Z, Mom(t, n), t.cols, t.icpt)
           b == CoefOf(t, D, n)
           want == TLCEval(MatVec(DZ, b))
       IN  Chk(Len(e.out) = Len(want) /\ \A i \in DOMAIN want :
               RClose(e.out[i], want[i], RTen(-6), RMul(RTen(-6), RAdd(RTen(-3), RDot([j \in DOMAIN b |-> RAbs(b[j])], [j \in DOMAIN b |-> RAbs(DZ[i][j])])))), "Prediction")
JudgeScore(t, e) ==
  IF ~ok THEN {} ELSE IF e.exc # "" THEN {"UnexpectedError:" \o e.exc}
  ELSE LET p == TLCEval(Pred(t, e.Z))
           r == VSub(e.y, p)  m == RDiv(RSum(e.y), Len(e.y))
           c == [i \in DOMAIN e.y |-> RSub(e.y[i], m)]
           want == RSub(1, RDiv(RDot(r, r), RDot(c, c)))
       IN  Chk(RClose(e.out, want, RTen(-5), RTen(-5)), "Score")

Step == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
        /\ LET t == Traces[tid]  e == t.ev[l + 1] IN
           IF e.op \in {"fit", "update"}
           THEN LET j == TLCEval(JudgeEnter(t, e)) IN D' = j.D /\ ok' = j.ok /\ bad' = j.bad /\ n' = e.n
           ELSE UNCHANGED <<D, n, ok>> /\ bad' = TLCEval(IF e.op = "predict" THEN JudgePredict(t, e) ELSE JudgeScore(t, e))
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == bad = {}
Report == ReportFor(tid, l, bad)
=============================================================================
