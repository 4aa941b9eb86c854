------------------------------ MODULE C14Trace ------------------------------
(***************************************************************************)
(* Conformance of the distribution classes: one event per call with one    *)
(* parameter vector per row.                                               *)
(***************************************************************************)
EXTENDS TraceBase, Distributions
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = {}

\* size of the terms that cancel in the log-density
Size(d, th) == CASE d \in UnitLaws -> RAdd(1, Prec(th))
                 [] d \in {"Gamma", "ZeroAdjustedGamma", "InverseGamma", "InverseGaussian"} -> RAdd(1, RDiv(1, Sq(th[2])))
                 [] d = "StudentT" -> RAdd(1, th[3])
                 [] OTHER -> RInt(1)

\* at a bound of the open support a density has no determined value
OnBound(d, y) == Atoms(d) = {} /\ ((REq(y, 0) /\ d \notin RealLaws) \/ (REq(y, 1) /\ d \in UnitLaws))
PointOK(d, th, y, e, i) ==
  LET lp == TLCEval(LogPdf(d, y, th))
      c == TLCEval(Cdf(d, y, th))
      tol == RMul(RTen(-10), Size(d, th))
  IN IF InSupport(d, y)
     THEN Chk(RClose(e.logpdf[i], lp, RTen(-9), tol) \/ (RLt(lp, RInt(-690)) /\ RLt(e.logpdf[i], RInt(-690))), "LogPdf")  \* the density may underflow
          \cup Chk(RClose(e.pdf[i], RExp(lp), RMul(RAdd(RTen(-9), tol), RAdd(1, RAbs(lp))), RTen(-290)), "Pdf")
          \cup Chk(RClose(e.cdf[i], c, RTen(-8), RTen(-12)), "Cdf")
          \cup Chk(IF RLt(RTen(-13), c) THEN RClose(e.logcdf[i], RLog(c), RTen(-6), RTen(-9)) ELSE RLt(e.logcdf[i], RInt(-20)), "LogCdf")
     ELSE Chk(REq(e.pdf[i], 0) \/ OnBound(d, y), "PdfOutside")
          \cup Chk((~RIsFinite(e.logpdf[i]) /\ ~RIsNaN(e.logpdf[i]) /\ RLt(e.logpdf[i], 0))
                   \/ OnBound(d, y), "LogPdfOutside")
          \cup Chk(RClose(e.cdf[i], c, 0, RTen(-300)), "CdfOutside")

RECURSIVE UnionTo(_, _)
UnionTo(f, n) == IF n = 0 THEN {} ELSE f[n] \cup UnionTo(f, n - 1)
Points(d, e) ==
  LET n == Len(e.y) IN
  IF Len(e.pdf) # n \/ Len(e.logpdf) # n \/ Len(e.cdf) # n \/ Len(e.logcdf) # n THEN {"Shape"}
  ELSE Chk(e.shape, "Shape")
       \cup UnionTo(TLCEval([i \in 1..n |-> PointOK(d, e.th[i], e.y[i], e, i)]), n)
       \cup (IF \A i \in 2..n : e.th[i] = e.th[1] THEN Chk(\A i \in 2..n : RLeq(e.y[i - 1], e.y[i]) => RLeq(e.cdf[i - 1], RAdd(e.cdf[i], RTen(-13))), "CdfMonotone") ELSE {})

Bound(n) == RSqrt(RDiv(RLog(RMul(2, RTen(9))), RMul(2, n)))
DrawsOK(d, th, e, row) ==
  \A j \in DOMAIN e.ks :
     LET x == row[j] IN
     /\ RIsFinite(x) /\ InClosure(d, x)
     \* at least ks[j] of the draws are <= x, at most ks[j] - 1 are < x
     /\ RLeq(RSub(RFrac(e.ks[j], e.size), Bound(e.size)), Cdf(d, x, th))
     /\ RLeq(CdfLeft(d, IF d \in UnitLaws THEN RSub(x, RTen(-15)) ELSE x, th), RAdd(RFrac(e.ks[j] - 1, e.size), Bound(e.size)))

\* two rows are drawn independently: how often both exceed their middle draws, within 6.6 standard deviations of independence
Independent(e) ==
  LET n == Len(e.raw[1])
      above(i) == TLCEval({ k \in 1..n : RLt(e.draws[i][9], e.raw[i][k]) })
      A == above(1)  B == above(2)
  IN RLeq(RAbs(RSub(RInt(Cardinality(A \cap B)), RFrac(Cardinality(A) * Cardinality(B), n))), RMul(RFrac(66, 40), RSqrt(RInt(n))))

Judge(d, e) ==
  CASE e.op = "point" -> Points(d, e)
    [] e.op = "ppf" -> IF Len(e.out) # Len(e.th) THEN {"Shape"}
                       ELSE Chk(e.shape, "Shape") \cup Chk(e.same, "QuantileIsPpf")
                            \cup Chk(\A i \in DOMAIN e.th : QuantileOK(d, e.th[i], e.q[i], e.out[i]), "Quantile")
    [] e.op = "median" -> IF Len(e.out) # Len(e.th) THEN {"Shape"}
                          ELSE Chk(e.shape, "Shape") \cup Chk(\A i \in DOMAIN e.th : QuantileOK(d, e.th[i], RFrac(1, 2), e.out[i]), "Median")
    [] e.op = "mean" -> IF Len(e.out) # Len(e.th) THEN {"Shape"}
                        ELSE Chk(e.shape, "Shape") \cup Chk(\A i \in DOMAIN e.th : HasMean(d, e.th[i]) => RClose(e.out[i], Mean(d, e.th[i]), RTen(-9), RMul(RTen(-9), IF d \in RealLaws THEN e.th[i][2] ELSE 0)), "Mean")
    [] e.op = "rvs" -> IF ~e.shape THEN {"DrawsShape"} ELSE Chk(\A i \in DOMAIN e.th : DrawsOK(d, e.th[i], e, e.draws[i]), "Draws") \cup (IF e.raw = <<>> THEN {} ELSE Chk(Independent(e), "IndependentDraws"))

Step == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
        /\ LET t == Traces[tid]  e == t.ev[l + 1] IN
           bad' = TLCEval(IF e.exc # "" THEN {"UnexpectedError:" \o e.op \o ":" \o e.exc} ELSE Judge(t.law, e))
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == bad = {}
Report == ReportFor(tid, l, bad)
=============================================================================
