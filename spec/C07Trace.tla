------------------------------ MODULE C07Trace ------------------------------
(***************************************************************************)
(* Conformance of the training length helpers, the online average and the  *)
(* counts that estimators report.                                          *)
(***************************************************************************)
EXTENDS TraceBase, TrainingLength
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = {}

JudgeLength(e) ==
  Chk(RClose(e.eff, EffLen(e.forget, e.n), RTen(-8), RTen(-9)), "EffectiveLength") \cup
  Chk(RLeq(e.eff, RMul(e.asym, RAdd(1, RTen(-12)))), "BelowAsymptotic") \cup
  Chk(REq(e.forget, 0) \/ RClose(e.asym, RDiv(1, e.forget), RTen(-12), 0), "AsymptoticLength")

\* v: all values so far; the first is the start value
JudgeMean(t, e) ==
  LET v == SubSeq(t.v, 1, e.n) IN
  Chk(RClose(e.avg, DMean(v, t.forget), RTen(-8), RMul(RTen(-9), RAdd(1, VMaxAbs(v)))), "OnlineMean")

\* total: the total weight given so far
JudgeCount(t, e) ==
  LET total == RSum(SubSeq(t.w, 1, e.n)) IN
  Chk(RClose(e.nobs, total, RTen(-11), 0), "ObservationCount") \cup
  Chk(RClose(e.nsamples, total, RTen(-11), 0), "SampleCount") \cup
  Chk(/\ Len(e.ntrain) = Len(t.forgets)
      /\ \A p \in DOMAIN e.ntrain : RClose(e.ntrain[p], EffLen(t.forgets[p], total), RTen(-8), RTen(-9)), "TrainingLength")

Judge(t, e) == IF e.exc # "" THEN {"UnexpectedError:" \o e.exc}
               ELSE IF e.op = "length" THEN JudgeLength(e)
               ELSE IF e.op = "mean" THEN JudgeMean(t, e) ELSE JudgeCount(t, e)
Step == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
        /\ bad' = TLCEval(Judge(Traces[tid], Traces[tid].ev[l + 1]))
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == bad = {}
Report == ReportFor(tid, l, bad)
=============================================================================
