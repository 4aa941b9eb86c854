------------------------------ MODULE C02Trace ------------------------------
(***************************************************************************)
(* Conformance of OnlineScaler.  The configuration holds the 1-based       *)
(* selected columns cols (empty if scaling is off), rows X and weights w.  *)
(***************************************************************************)
EXTENDS TraceBase, Scaler

VARIABLES tid, l, mom, bad
vars == <<tid, l, mom, bad>>
\* mom: the moments of the selected columns, from the definition
Init == tid \in DOMAIN Traces /\ l = 0 /\ mom = <<>> /\ bad = {}

Moments(t, n) ==
  LET g == RSub(1, t.forget)  w == TLCEval(SubSeq(t.w, 1, n))  X == SubSeq(t.X, 1, n)
  IN  TLCEval([c \in DOMAIN t.cols |->
        LET x == TLCEval([i \in 1..n |-> X[i][t.cols[c]]]) IN [mean |-> WMean(x, w, g), var |-> WVar(x, w, g)]])

JudgeFit(t, e) ==
  LET m == Moments(t, e.n)
      rt == t.tol
      nobs == RSum(SubSeq(t.w, 1, e.n))
      okm == /\ Len(e.mean) = Len(m)
             /\ \A c \in DOMAIN m : RClose(e.mean[c], m[c].mean, rt, RMul(rt, RSqrt(RAdd(m[c].var, RMul(m[c].mean, m[c].mean)))))
      okv == /\ Len(e.var) = Len(m)
             /\ \A c \in DOMAIN m : RClose(e.var[c], m[c].var, RMul(10, rt), RMul(RMul(rt, RTen(-3)), RMul(m[c].mean, m[c].mean)))
      oks == /\ Len(e.std) = Len(m)
             /\ \A c \in DOMAIN m : RClose(RMul(e.std[c], e.std[c]), m[c].var, RMul(20, rt), RMul(RMul(rt, RTen(-3)), RMul(m[c].mean, m[c].mean)))
  IN  [mom |-> m,
       bad |-> IF e.exc # "" THEN {"UnexpectedError:" \o e.exc}
               ELSE (IF t.scale THEN Chk(okm, "Mean") \cup Chk(okv, "Variance") \cup Chk(oks, "Std") ELSE {})
                    \cup Chk(RClose(e.nobs, nobs, RTen(-12), 0), "ObservationCount")]

\* selected columns standardised, all others bit-identical, input untouched
JudgeMap(t, e, Op(_, _, _)) ==
  LET idx(j) == { c \in DOMAIN t.cols : t.cols[c] = j }
      good(i, j) == LET z == e.Z[i][j]  o == e.out[i][j] IN
        IF idx(j) = {} THEN REq(z, o)
        ELSE LET c == CHOOSE c \in idx(j) : TRUE
                 want == Op(z, mom[c].mean, mom[c].var)
             IN  RClose(o, want, RMul(100, t.tol), RMul(RMul(100, t.tol), RAdd(1, RDiv(RAbs(mom[c].mean), RSqrt(mom[c].var)))))
      shape == Len(e.out) = Len(e.Z) /\ \A i \in DOMAIN e.Z : Len(e.out[i]) = Len(e.Z[i])
  IN  IF e.exc # "" THEN {"UnexpectedError:" \o e.exc}
      ELSE Chk(e.same, "InputModified") \cup
           IF ~shape THEN {"Shape"}
           ELSE Chk(\A i \in DOMAIN e.Z : \A j \in DOMAIN e.Z[i] : good(i, j), IF e.op = "transform" THEN "Transform" ELSE "InverseTransform")

\* inverse_transform(transform(Z)) = Z
JudgeRound(t, e) ==
  IF e.exc # "" THEN {"UnexpectedError:" \o e.exc}
  ELSE Chk(/\ Len(e.out) = Len(e.Z)
           /\ \A i \in DOMAIN e.Z : VClose(e.out[i], e.Z[i], RMul(10, t.tol), RMul(RMul(10, t.tol), RAdd(1, VMaxAbs(e.Z[i])))), "RoundTrip")

Step == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
        /\ LET t == Traces[tid]  e == t.ev[l + 1] IN
           IF e.op \in {"fit", "update"}
           THEN LET j == TLCEval(JudgeFit(t, e)) IN mom' = j.mom /\ bad' = j.bad
           ELSE /\ mom' = mom
                /\ bad' = TLCEval(IF e.op = "transform" THEN JudgeMap(t, e, Standardise)
                          ELSE IF e.op = "inverse" THEN JudgeMap(t, e, Unstandardise)
                          ELSE JudgeRound(t, e))
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == bad = {}
Report == ReportFor(tid, l, bad)
=============================================================================
