------------------------------ MODULE C01Trace ------------------------------
(***************************************************************************)
(* Conformance of the accumulators: after every recorded call all routes   *)
(* (the functions of gram.py and the four estimation methods) must return  *)
(* the statistics that Discount defines for all rows consumed so far.      *)
(* Events: [op, n, exc, gram, cross, inv] where n counts the rows so far.  *)
(***************************************************************************)
EXTENDS TraceBase, Discount

VARIABLES tid, l, ok, bad
vars == <<tid, l, ok, bad>>

\* ok: the inverse has been well conditioned at every step so far, so that comparing it is meaningful
Init == tid \in DOMAIN Traces /\ l = 0 /\ ok = TRUE /\ bad = {}

Cmp(res, S, name, rt) == Chk(Len(res) = Len(S) /\ MatClose(res, S, rt, RMul(rt, MatMaxAbs(S))), name)
CmpV(res, S, name, rt, scale) == Chk(Len(res) = Len(S) /\ VClose(res, S, rt, RMul(rt, scale)), name)

Judge(t, e) ==
  LET g == RSub(1, t.forget)
      X == TLCEval(SubSeq(t.X, 1, e.n))  y == SubSeq(t.y, 1, e.n)  w == SubSeq(t.w, 1, e.n)
      dw == TLCEval(DWeights(w, g))
      G == TLCEval(WGram(X, dw))
      h == TLCEval(WCross(X, y, dw))
      sc == RAdd(1, RDot3(dw, [i \in DOMAIN y |-> RAbs(y[i])], [i \in DOMAIN X |-> VMaxAbs(X[i])]))
      V == TLCEval(Inverse(G))
      cond == IF V = <<>> THEN RInf ELSE RMul(RMul(MatMaxAbs(G), MatMaxAbs(V)), Len(G))
      well == RLeq(cond, RTen(7))
      stillok == ok /\ well
      gr == UNION { Cmp(e.gram[k], G, "Gram:" \o k, RTen(-9)) : k \in DOMAIN e.gram }
      cr == UNION { CmpV(e.cross[k], h, "Cross:" \o k, RTen(-9), sc) : k \in DOMAIN e.cross }
      iv == IF stillok THEN UNION { Cmp(e.inv[k], V, "Inverse:" \o k, RTen(-6)) : k \in DOMAIN e.inv } ELSE {}
  IN  [ok |-> stillok,
       bad |-> (IF e.exc # "" THEN {"UnexpectedError:" \o e.exc} ELSE gr \cup cr \cup iv)]

\* Initialising the inverse of an exactly singular Gram matrix has to raise ValueError.
JudgeSingular(t, e) ==
  LET G == TLCEval(WGram(t.X, TLCEval(DWeights(t.w, RSub(1, t.forget)))))
  IN  [ok |-> ok,
       bad |-> UNION { Chk((Inverse(G) = <<>>) => (e.outcome[k] = "ValueError"), "SingularRaises:" \o k)
                       : k \in DOMAIN e.outcome }]

Step == /\ l < Len(Traces[tid].ev)
        /\ l' = l + 1 /\ tid' = tid
        /\ LET t == Traces[tid]  e == t.ev[l + 1]
               j == TLCEval(IF e.op = "singular" THEN JudgeSingular(t, e) ELSE Judge(t, e))
           IN  ok' = j.ok /\ bad' = j.bad
Next == Step
Spec == Init /\ [][Next]_vars

Accepted == bad = {}
Report == ReportFor(tid, l, bad)
=============================================================================
