------------------------------ MODULE C05Trace ------------------------------
(***************************************************************************)
(* Conformance of regularisation paths: of the path methods on given       *)
(* moments (op "moments") and of linear-model estimators on data (op       *)
(* "rows"), where the specification forms the moments itself.              *)
(* state: D, the design rows so far; n, raw rows so far; old, the previous *)
(* path.                                                                   *)
(***************************************************************************)
EXTENDS TraceBase, LinearModel, RegPath
VARIABLES tid, l, D, n, old, bad
vars == <<tid, l, D, n, old, bad>>
Init == tid \in DOMAIN Traces /\ l = 0 /\ D = <<>> /\ n = 0 /\ old = <<>> /\ bad = {}

AbsRow(G, j) == [k \in DOMAIN G |-> RAbs(G[j][k])]
Magnitude(P, b) == RAdd(RAdd(RTen(-6), VMaxAbs(b)), VMaxAbs([j \in DOMAIN b |->
   RDiv(RAdd(RAbs(P.h[j]), RDot(AbsRow(P.G, j), [k \in DOMAIN b |-> RAbs(b[k])])), P.G[j][j])]))
Gain(P) == RAdd(1, VMaxAbs([j \in DOMAIN P.h |-> RDiv(RSum(AbsRow(P.G, j)), P.G[j][j])]))

Row(t, G, h, lmax, mode, path, i) ==
  LET J == Len(h)
      P == [G |-> G, h |-> h, reg |-> t.reg, lam |-> TLCEval(Lambda(lmax, t.ratio, t.nl, i)), al |-> t.al, lo |-> t.lo, hi |-> t.hi]
      s == TLCEval(StartRow(mode, IF i = 1 THEN Zeros(J) ELSE path[i - 1], IF old = <<>> THEN Zeros(J) ELSE old[i]))
      b == path[i]
      m == TLCEval(RMul(RTen(-7), Magnitude(P, b)))
  IN  Chk(InBounds(P, b), "Bounds")
      \cup (IF t.sel = "cyclic"
            THEN Chk(\E c \in Rows(P, s, t.early, t.tol, t.maxit) : VClose(b, c, 0, m), IF Copied(s, t.early) THEN "EarlyStop" ELSE "Row")
            ELSE IF Copied(s, t.early) THEN Chk(VClose(b, s, 0, m), "EarlyStop")
            ELSE Chk(t.maxit < 1000 \/ \A j \in DOMAIN b : REq(b[j], 0) \/ RClose(b[j], CoordMin(P, b, j), 0,
                        RMul(RMul(RAdd(t.tol, RTen(-9)), Gain(P)), Magnitude(P, b))), "RowIsOptimal")
                 \cup (IF InBounds(P, s) THEN Chk(RLeq(Objective(P, b), RAdd(Objective(P, s), RMul(RTen(-9), RAdd(1, RAbs(RDot(h, b)))))), "ObjectiveNotRaised") ELSE {}))
      \cup (IF i = 1 /\ REq(t.al, 1) /\ (mode = "previous_lambda" \/ old = <<>>) /\ (\A j \in 2..J : t.reg[j]) /\ (\A j \in DOMAIN b : t.reg[j] \/ (~RIsFinite(t.lo[j]) /\ ~RIsFinite(t.hi[j])))
            THEN Chk(\A j \in DOMAIN b : t.reg[j] => RClose(b[j], Clip(RInt(0), t.lo[j], t.hi[j]), 0, m) \/ ~RLeq(t.lo[j], 0) \/ ~RLeq(0, t.hi[j]), "FirstRowEmpty") ELSE {})

Judge(t, G, h, e) ==
  LET J == Len(h)
      mode == IF e.first THEN t.ini ELSE t.upd
  IN  IF Len(e.path) # t.nl THEN {"RowCount"}
      ELSE IF \E i \in DOMAIN e.path : Len(e.path[i]) # J \/ ~VFinite(e.path[i]) THEN {"RowShape"}
      ELSE LET lmax == TLCEval(LambdaMax(G, h, t.reg)) IN UNION { Row(t, G, h, lmax, mode, e.path, i) : i \in DOMAIN e.path }

Enter(t, e) ==
  LET g == RSub(1, t.forget)
      w == TLCEval(SubSeq(t.w, 1, e.n))
      mom == MomentsOf(SubSeq(t.X, 1, e.n), w, g, t.cols)
  IN  TLCEval(D \o Design(SubSeq(t.X, n + 1, e.n), mom, t.cols, t.icpt))

Step == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
        /\ LET t == Traces[tid]  e == t.ev[l + 1] IN
           IF e.exc # "" THEN UNCHANGED <<D, n, old>> /\ bad' = {"UnexpectedError:" \o e.exc}
           ELSE /\ old' = e.path
                /\ IF e.op = "moments" THEN UNCHANGED <<D, n>> /\ bad' = TLCEval(Judge(t, e.G, e.h, e))
                   ELSE LET DD == Enter(t, e)
                            dw == TLCEval(DWeights(TLCEval(SubSeq(t.w, 1, e.n)), RSub(1, t.forget)))
                        IN  /\ D' = DD /\ n' = e.n
                            /\ bad' = TLCEval(Judge(t, TLCEval(WGram(DD, dw)), TLCEval(WCross(DD, SubSeq(t.y, 1, e.n), dw)), e))
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == bad = {}
Report == ReportFor(tid, l, bad)
=============================================================================
