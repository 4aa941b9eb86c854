------------------------------ MODULE C06Trace ------------------------------
(***************************************************************************)
(* Conformance of the information criteria (op "ic") and of the selection  *)
(* in the path-based linear models (op "rows").                            *)
(* state: n, raw rows so far; rss, the accumulated squared error of every  *)
(* row of the path; each batch enters with the path reported after it.     *)
(***************************************************************************)
EXTENDS TraceBase, LinearModel, InfoCriteria, TrainingLength
VARIABLES tid, l, n, rss, bad
vars == <<tid, l, n, rss, bad>>
Init == tid \in DOMAIN Traces /\ l = 0 /\ n = 0 /\ rss = <<>> /\ bad = {}

Undefined(e, i) == e.c = "aicc" /\ REq(RSub(RSub(e.n[i], e.p[i]), 1), 0)
Formula(e) ==
  LET ll(i) == IF e.from = "ll" THEN e.x[i] ELSE LLofRSS(e.n[i], e.x[i])
      scale(i) == RAdd(1, RAdd(RAbs(RMul(2, ll(i))), RAbs(IC(e.c, e.n[i], e.p[i], RInt(0)))))
  IN  IF e.c \notin Criteria \/ \E i \in DOMAIN e.x : Undefined(e, i) THEN Chk(e.exc = "ValueError", "ValueErrorExpected")
      ELSE IF e.exc # "" THEN {"UnexpectedError:" \o e.exc}
      ELSE Chk(e.shapeOK, "Shape")
           \cup Chk(Len(e.val) = Len(e.x) /\ \A i \in DOMAIN e.x :
                      LET want == IC(e.c, e.n[i], e.p[i], ll(i)) IN ~RIsFinite(want) \/ RClose(e.val[i], want, 0, RMul(RTen(-11), scale(i))), "Formula")

Select(t, e) ==
  LET g == RSub(1, t.forget)
      w == TLCEval(SubSeq(t.w, 1, e.n))
      mom == MomentsOf(SubSeq(t.X, 1, e.n), w, g, t.cols)
      D == Design(SubSeq(t.X, n + 1, e.n), mom, t.cols, t.icpt)
      y == TLCEval(SubSeq(t.y, n + 1, e.n))
      dw == TLCEval(DWeights(SubSeq(t.w, n + 1, e.n), g))
      disc == RPowI(g, Len(y))
      new == TLCEval([k \in DOMAIN e.path |-> LET r == TLCEval(VSub(y, MatVec(D, e.path[k]))) IN
                 RAdd(RDot3(r, r, dw), IF n = 0 THEN RInt(0) ELSE RMul(disc, rss[k]))])
      len == EffLen(t.forget, RSum(w))
      ll == TLCEval([k \in DOMAIN new |-> LLofRSS(len, new[k])])
      Q == Design(t.Q, mom, t.cols, t.icpt)
      want(q, b) == RDot(Q[q], b)
      tol(q, b) == RMul(RTen(-8), RAdd(1, RDot([j \in DOMAIN b |-> RAbs(Q[q][j])], [j \in DOMAIN b |-> RAbs(b[j])])))
  IN  [rss |-> new,
       bad |-> Chk(IsRow(e.path, e.coef), "IsRow")
               \cup Chk(SelectionOK(t.ic, len, e.path, ll, 0, e.coef), "Selection")
               \cup Chk(\A q \in DOMAIN Q : RClose(e.pred[q], want(q, e.coef), 0, tol(q, e.coef)), "Predict")
               \cup Chk(\A q \in DOMAIN Q : Len(e.ppath[q]) = Len(e.path) /\ \A k \in DOMAIN e.path : RClose(e.ppath[q][k], want(q, e.path[k]), 0, tol(q, e.path[k])), "PredictPath")]

Step == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
        /\ LET t == Traces[tid]  e == t.ev[l + 1] IN
           IF e.op = "ic" THEN UNCHANGED <<n, rss>> /\ bad' = TLCEval(Formula(e))
           ELSE IF e.exc # "" THEN UNCHANGED <<n, rss>> /\ bad' = {"UnexpectedError:" \o e.exc}
           ELSE LET j == TLCEval(Select(t, e)) IN n' = e.n /\ rss' = j.rss /\ bad' = j.bad
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == bad = {}
Report == ReportFor(tid, l, bad)
=============================================================================
