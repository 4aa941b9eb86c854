------------------------------ MODULE C21Trace ------------------------------
(***************************************************************************)
(* Conformance of the start values of every law.                           *)
(***************************************************************************)
EXTENDS TraceBase, Distributions
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = {}

Spread(e) == LET mx == VMaxAbs(e.y) IN mx
Judge(d, e) ==
  LET n == Len(e.y)  p == NParams(d)
      rect(o) == Len(o) = n /\ \A i \in 1..n : Len(o[i]) = p
  IN IF ~rect(e.out) \/ ~rect(e.perm_out) \/ ~rect(e.moved) \/ ~rect(e.link) \/ Len(e.ll) # n THEN {"Shape"}
     ELSE Chk(\A i \in 1..n, j \in 1..p : ParamOK(d, j, e.out[i][j]), "InsideParameterSupport")
          \cup Chk(\A i \in 1..n : VFinite(e.link[i]), "LinkFinite")
          \cup Chk(VFinite(e.ll), "LikelihoodFinite")
          \cup (IF \A i \in 1..n, j \in 1..p : ParamOK(d, j, e.out[i][j])
                THEN Chk(\A i \in 1..n : RIsFinite(LogPdf(d, e.y[i], e.out[i])), "LikelihoodFinite") ELSE {})
          \cup (IF e.rowwise THEN {} ELSE Chk(\A i \in 2..n : e.out[i] = e.out[1], "SameForAllRows"))
          \cup Chk(\A i \in 1..n : VClose(e.perm_out[i], IF e.numeric /\ ~e.rowwise THEN e.perm_out[i] ELSE e.out[e.perm[i]], RTen(-9), RMul(RTen(-9), Spread(e))), "OrderIndependent")
          \cup (IF ~e.equiv THEN {}
                ELSE LET sc == IF d = "NormalMeanVariance" THEN Sq(e.a) ELSE e.a
                         \* differences of the data lose digits
                         tol == RMul(RTen(-10), RAdd(RMul(e.a, Spread(e)), RAbs(e.b)))
                     IN Chk(\A i \in 1..n : RClose(e.moved[i][1], RAdd(RMul(e.a, e.out[i][1]), e.b), RTen(-9), tol), "LocationMovesWithData")
                        \cup Chk(\A i \in 1..n : RClose(e.moved[i][2], RMul(sc, e.out[i][2]), RTen(-6), IF d = "NormalMeanVariance" THEN RMul(tol, RSqrt(RAdd(e.moved[i][2], 0))) ELSE tol), "ScaleMovesWithData"))

Step == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
        /\ LET t == Traces[tid]  e == t.ev[l + 1] IN
           bad' = TLCEval(IF e.exc # "" THEN {"UnexpectedError:" \o e.op \o ":" \o e.exc} ELSE Judge(t.law, e))
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == bad = {}
Report == ReportFor(tid, l, bad)
=============================================================================
