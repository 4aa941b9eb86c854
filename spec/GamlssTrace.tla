---------------------------- MODULE GamlssTrace ----------------------------
(***************************************************************************)
(* Conformance of OnlineDistributionalRegression, iteration by iteration.  *)
(* A trace holds the data and settings and, per call: begin (with the      *)
(* start values of a fit), one iter event per inner iteration in the order *)
(* they ran (working fitted values, derivatives, weights, working          *)
(* response, coefficients, path), end (the coefficients reported).         *)
(* The specification computes designs, statistics, solutions, deviances    *)
(* and the control flow itself.  st.alts is the set of states the          *)
(* specification may be in: more than one only while a comparison of       *)
(* deviances is closer than rounding.                                      *)
(* Focus selects the clauses that are judged (C20: all of them).           *)
(***************************************************************************)
EXTENDS TraceBase, Gamlss, TrainingLength
CONSTANT Focus
VARIABLES tid, l, st, bad
vars == <<tid, l, st, bad>>

Dead == [n |-> 0, dead |-> TRUE, ill |-> FALSE, alts |-> {}]
Init == /\ tid \in DOMAIN Traces /\ l = 0 /\ bad = {}
        /\ st = [n |-> 0, dead |-> FALSE, ill |-> FALSE, alts |-> {}]

On(f, cond, name) == IF Focus \notin {f, "C20"} THEN {} ELSE Chk(cond, name)
NP(t) == Len(t.links)
Gam(t, p) == RSub(1, t.forget[p])
DoneAt == <<0, 0, 0>>

(******************************* begin *************************************)
MomAt(t, m) == MomentsOf(SubSeq(t.X, 1, m), TLCEval(SubSeq(t.w, 1, m)), Gam(t, 1), t.cols)
Designs(t, a, b, mom) == TLCEval([p \in 1..NP(t) |-> EqDesign(SubSeq(t.X, a, b), mom, t.cols, t.eq[p], t.icpt[p])])
EtaOK(lk, e) == RIsFinite(e) /\ RLeq(RAbs(e), IF lk.kind \in {"identity", "sqrt"} THEN RTen(6) ELSE IF REq(lk.v, 0) THEN RInt(20) ELSE RInt(8))
\* nearly degenerate laws lose all digits in double precision
Degenerate(law, th) == \/ law = "JSU" /\ \E i \in DOMAIN th : RLt(RInt(50), RAbs(th[i][3])) \/ RLt(RInt(50), th[i][4])
                       \/ law = "StudentT" /\ \E i \in DOMAIN th : RLt(RInt(1000), th[i][3])
\* densities that underflow in double precision have no judged logarithm
LogL(law, y, th) == TLCEval(LET x == LogLiks(law, y, th) IN [i \in DOMAIN x |-> IF RLt(x[i], RInt(-600)) THEN RNaN ELSE x[i]])
PredictRows(t, D, coef) ==
  LET eta == TLCEval([p \in 1..NP(t) |-> TLCEval(MatVec(D[p], coef[p]))]) IN
  TLCEval([i \in DOMAIN D[1] |-> TLCEval([p \in 1..NP(t) |-> LinkInv(t.links[p].kind, t.links[p].v, eta[p][i])])])
Outliers(t, y, th) ==   \* is some new response outside its central 99 percent?
  LET out(i) == LET F == Cdf(t.law, y[i], th[i]) IN Either(Less(F, RFrac(5, 1000), RTen(-7)), Greater(F, RFrac(995, 1000), RTen(-7)))
      RECURSIVE AnyOf(_)
      AnyOf(i) == IF i = 0 THEN {FALSE} ELSE Either(out(i), AnyOf(i - 1))
  IN  AnyOf(Len(y))

Empty(t) == [p \in 1..NP(t) |-> <<>>]
None0(t) == [gd |-> RInt(0), coef |-> <<>>, path |-> Empty(t), G |-> Empty(t), h |-> Empty(t), msd |-> Empty(t),
             sw |-> [p \in 1..NP(t) |-> 0], mw |-> [p \in 1..NP(t) |-> 0]]
Begin(t, e) ==
  LET y == TLCEval(SubSeq(t.y, st.n + 1, e.n))  w == TLCEval(SubSeq(t.w, st.n + 1, e.n))
      fit == e.kind = "fit"
      mom == MomAt(t, e.n)
      D == Designs(t, st.n + 1, e.n, mom)
      old == IF fit THEN <<>> ELSE Designs(t, st.n + 1, e.n, MomAt(t, st.n))
      nobs == RSum(SubSeq(t.w, 1, e.n))
      \* the states of the call that starts in state v of the model so far
      From(v) ==
        LET th == IF fit THEN e.fv0 ELSE PredictRows(t, old, v.coef)   \* fitted values at the start
            carry == TLCEval(IF fit THEN RInt(0) ELSE RMul(RPowI(Gam(t, 1), Len(y)), v.gd))
            dv == TLCEval(RAdd(Deviance(LogL(t.law, y, th), w), carry))
            single == IF fit THEN {t.preI} ELSE
                IF t.cautious THEN { IF x THEN (IF t.preU > 4 THEN t.preU ELSE 4) ELSE t.preU : x \in Outliers(t, y, th) } ELSE {t.preU}
            mins == IF fit THEN {IF t.preI > 0 THEN t.preI ELSE t.minO}
                ELSE IF t.cautious THEN {4, t.minO} ELSE IF t.preU > 0 THEN {t.preU} ELSE {t.minO} \cup (IF t.preI > 0 THEN {t.preI} ELSE {})
        IN  { [next |-> <<1, 1, 0>>, c |-> [start |-> dv, old |-> dv, half |-> 0], step |-> t.step[t.order[1]],
               th |-> th, fv |-> th, pi |-> <<>>, gd |-> dv, gdOld |-> RAdd(dv, 1000), single |-> s, min |-> m, carry |-> carry,
               coef |-> IF fit THEN [p \in 1..NP(t) |-> Zeros(Len(D[p][1]))] ELSE v.coef,
               path |-> v.path, G |-> v.G, h |-> v.h, msd |-> v.msd, sw |-> v.sw, mw |-> v.mw,
               G0 |-> v.G, h0 |-> v.h, msd0 |-> v.msd, sw0 |-> v.sw, mw0 |-> v.mw] : s \in single, m \in mins }
      alts == UNION { From(v) : v \in IF fit THEN {None0(t)} ELSE st.alts }
  IN  IF \E v \in alts : ~RIsFinite(v.gd) THEN [st |-> Dead, bad |-> {}]
      ELSE [st |-> [n |-> st.n, m |-> e.n, dead |-> FALSE, ill |-> st.ill, kind |-> e.kind, D |-> D, y |-> y, w |-> w,
                    ntr |-> TLCEval([p \in 1..NP(t) |-> EffLen(t.forget[p], nobs)]),
                    disc |-> TLCEval([p \in 1..NP(t) |-> IF fit THEN RInt(0) ELSE RPowI(Gam(t, p), Len(y))]),
                    alts |-> alts],
            bad |-> {}]

(******************************* one iteration *****************************)
ThClose(th, want) == /\ Len(th) = Len(want)
                     /\ \A p \in DOMAIN th[1] : VClose(Col(th, p), Col(want, p), RTen(-7), RMul(RTen(-7), VMaxAbs(Col(want, p))))
Fit == st.kind = "fit"
PosOf(t, e) == CHOOSE k \in 1..NP(t) : t.order[k] = e.p

AbsRow(G, j) == [k \in DOMAIN G |-> RAbs(G[j][k])]
RowTol(P, b) == RMul(RTen(-6), RAdd(RAdd(RTen(-6), VMaxAbs(b)), VMaxAbs([j \in DOMAIN b |->
   RDiv(RAdd(RAbs(P.h[j]), RDot(AbsRow(P.G, j), [k \in DOMAIN b |-> RAbs(b[k])])), P.G[j][j])])))
PathOK(m, reg, G, h, mode, old, path) ==
  LET J == Len(h)
      lmax == TLCEval(LambdaMax(G, h, reg))
      P(i) == [G |-> G, h |-> h, reg |-> reg, lam |-> TLCEval(Lambda(lmax, m.ratio, m.nl, i)), al |-> m.al, lo |-> m.lo, hi |-> m.hi]
  IN  Len(path) = m.nl /\ \A i \in 1..m.nl :
        LET q == P(i)
            s == TLCEval(StartRow(mode, IF i = 1 THEN Zeros(J) ELSE path[i - 1], IF old = <<>> THEN Zeros(J) ELSE old[i]))
        IN  Len(path[i]) = J /\ \E c \in Rows(q, s, m.early, m.tol, m.maxit) : VClose(path[i], c, 0, RowTol(q, path[i]))

Well(G) == LET V == TLCEval(Inverse(G)) IN V # <<>> /\ RLeq(RMul(MatMaxAbs(G), MatMaxAbs(V)), RTen(7))
CoefOK(t, p, a, G, h, e) ==
  LET m == t.meth[p] IN
  IF m.kind = "ols" THEN LET b == TLCEval(Solve(G, h)) IN VClose(e.coef, b, RTen(-6), RMul(RTen(-6), RAdd(RTen(-3), VMaxAbs(b))))
  ELSE IF m.kind = "ridge"
  THEN LET P == [G |-> G, h |-> h, reg |-> t.reg[p], lam |-> m.lam, al |-> RInt(0), lo |-> m.lo, hi |-> m.hi]
           s == TLCEval(IF Fit THEN Solve(G, h) ELSE a.coef[p])
       IN  \E c \in CDSolve(P, s, m.tol, m.maxit) : VClose(e.coef, c, 0, RowTol(P, e.coef))
  ELSE LET first == Fit /\ e.o = 1 /\ e.i = 0
           old == IF first THEN <<>> ELSE IF Fit /\ e.i > 0 THEN a.pi ELSE a.path[p]
       IN  PathOK(m, t.reg[p], G, h, IF first THEN m.ini ELSE m.upd, old, e.path)

\* what the selection rule accumulates for every row of the path
SelData(t, p, a, D, dw, e) ==
  LET n == Len(st.y)
      rows == TLCEval([k \in DOMAIN e.path |-> TLCEval(MatVec(D, e.path[k]))]) IN
  IF t.rule = "local_rss"
  THEN LET ss == TLCEval([k \in DOMAIN rows |-> LET r == TLCEval(VSub(e.wv, rows[k])) IN RDot3(r, r, dw)])
       IN  IF Fit THEN TLCEval([k \in DOMAIN ss |-> RDiv(ss[k], RDiv(RSum(dw), n))])
           ELSE LET den == RDiv(RAdd(RSum(dw), RMul(st.disc[p], a.sw0[p])), st.ntr[p])
                IN  TLCEval([k \in DOMAIN ss |-> RDiv(RAdd(ss[k], RMul(st.disc[p], RMul(a.msd0[p][k], a.mw0[p]))), den)])
  ELSE LET f == TLCEval(DWeights(st.w, Gam(t, p)))
           L(k) == LogL(t.law, st.y, Replace(a.fv, p, [i \in DOMAIN st.y |-> LinkInv(t.links[p].kind, t.links[p].v, rows[k][i])]))
       IN  TLCEval([k \in DOMAIN rows |-> TLCEval(RAdd(RDot(L(k), f), IF Fit THEN RInt(0) ELSE RMul(st.disc[p], a.msd0[p][k])))])
RECURSIVE OtherParams(_, _, _)
OtherParams(coef, p, q) == IF q = 0 THEN 0 ELSE OtherParams(coef, p, q - 1) + (IF q = p THEN 0 ELSE CountAbove(coef[q], 0))
SelOK(t, p, a, data, e) ==
  LET ll == TLCEval([k \in DOMAIN data |-> IF t.rule = "local_rss" THEN LLofRSS(st.ntr[p], data[k]) ELSE data[k]])
  IN  SelectionOK(t.ic[p], st.ntr[p], e.path, ll, OtherParams(a.coef, p, NP(t)), e.coef)

Iter(t, e) ==
  LET p == e.p  lk == t.links[p]  D == st.D[p]
      here == { a \in st.alts : a.next = <<e.o, PosOf(t, e), e.i>> }
      near == { a \in here : ThClose(e.fv, a.th) }
      eta == TLCEval(Eta(lk, e.fv, p))
      finite == VFinite(e.wt) /\ VFinite(e.wv) /\ VFinite(e.coef)
  IN
  IF here = {} THEN [st |-> Dead, bad |-> On("C12", FALSE, "Schedule")]
  ELSE IF near = {} THEN [st |-> Dead, bad |-> IF e.i = 0 THEN On("C11", FALSE, "StartOfIteration") \cup On("C12", FALSE, "StartOfIteration")
                                                          ELSE On("C12", FALSE, "Step")]
  ELSE IF Degenerate(t.law, e.fv) \/ (\E i \in DOMAIN eta : ~EtaOK(lk, eta[i])) \/ ~VFinite(e.d1) \/ ~VFinite(e.d2) THEN [st |-> Dead, bad |-> {}]
  ELSE IF ~finite THEN [st |-> Dead, bad |-> On("C11", FALSE, "Finite")]
  ELSE
  LET dw == TLCEval(DWeights(TLCEval(VMul(st.w, e.wt)), Gam(t, p)))
      G1 == TLCEval(WGram(D, dw))  h1 == TLCEval(WCross(D, e.wv, dw))
      GG(a) == TLCEval(IF Fit THEN G1 ELSE MatAdd(MatScale(st.disc[p], a.G0[p]), G1))
      hh(a) == TLCEval(IF Fit THEN h1 ELSE VAdd(VScale(st.disc[p], a.h0[p]), h1))
      isPath == t.meth[p].kind = "path"
      ill == st.ill \/ (Focus \in {"C11", "C20"} /\ ~isPath /\ \E a \in near : ~Well(GG(a)))
      weightsOK == \A i \in DOMAIN eta : RClose(e.wt[i], WorkingWeight(lk, eta[i], e.d2[i]), RTen(-6), RTen(-16))
      workOK == \A i \in DOMAIN eta : LET s == WorkingShift(lk, eta[i], e.d1[i], e.wt[i]) IN
                   RClose(e.wv[i], RAdd(eta[i], s), 0, RMul(RTen(-6), RAdd(RTen(-3), RAdd(RAbs(eta[i]), RAbs(s)))))
      data == TLCEval([a \in near |-> IF isPath /\ Focus \in {"C06", "C20"} THEN SelData(t, p, a, D, dw, e) ELSE <<>>])
      \* the states that explain the coefficients (C11) or the selection (C06)
      fine == TLCEval({ a \in near : /\ (Focus \in {"C11", "C20"} /\ ~ill) => CoefOK(t, p, a, GG(a), hh(a), e)
                                     /\ (Focus \in {"C06", "C20"} /\ isPath) => SelOK(t, p, a, data[a], e) })
      live == IF fine = {} THEN near ELSE fine
      clauses == On("C11", weightsOK, "Weights") \cup On("C11", workOK, "WorkingResponse") \cup On("C11", fine # {}, "Coefficients")
                 \cup (IF isPath THEN On("C06", IsRow(e.path, e.coef), "IsRow") ELSE {}) \cup On("C06", fine # {}, "Selection")
      pred == TLCEval(MatVec(D, e.coef))
      col(a) == TLCEval([i \in DOMAIN eta |-> LinkInv(lk.kind, lk.v, IF Fit THEN RAdd(RMul(a.step, pred[i]), RMul(RSub(1, a.step), eta[i])) ELSE pred[i])])
      okPred == \A i \in DOMAIN pred : EtaOK(lk, pred[i])
      sum == TLCEval(RSum(dw))
      After(a) ==
        LET sw == TLCEval(IF Fit THEN sum ELSE RAdd(sum, RMul(st.disc[p], a.sw0[p])))
            v == col(a)
            thN == Replace(a.fv, p, v)
            ll == LogL(t.law, st.y, thN)
            dv == TLCEval(RAdd(Deviance(ll, st.w), a.carry))
            eps == TLCEval(RMul(RTen(-9), RAdd(1, RAdd(Magnitude2(ll, st.w), RAbs(a.carry)))))
        IN  IF ~RIsFinite(dv) \/ RLt(RTen(12), RAbs(dv)) THEN {}
            ELSE UNION { 
              IF ~r.stop
              THEN { [a EXCEPT !.next = <<e.o, @[2], e.i + 1>>, !.c = [start |-> a.c.start, old |-> IF r.rose THEN a.c.old ELSE dv, half |-> r.half],
                               !.th = IF r.rose THEN e.fv ELSE thN, !.step = IF r.rose /\ Fit THEN RDiv(a.step, 2) ELSE t.step[p], !.pi = e.path] }
              ELSE LET k == a.next[2]
                       b == IF ~r.keep THEN a ELSE [a EXCEPT !.coef[p] = e.coef, !.path[p] = e.path, !.G[p] = GG(a), !.h[p] = hh(a), !.fv = thN,
                                !.msd[p] = data[a], !.sw[p] = sw, !.mw[p] = IF Fit THEN RDiv(sum, Len(st.y)) ELSE RDiv(sw, st.ntr[p])]
                       dvC == IF r.keep THEN dv ELSE a.c.start
                       c == [start |-> dvC, old |-> dvC, half |-> 0]
                   IN  IF k < NP(t) THEN { [b EXCEPT !.next = <<e.o, k + 1, 0>>, !.c = c, !.th = b.fv, !.step = t.step[t.order[k + 1]], !.pi = <<>>] }
                       ELSE { IF s THEN [b EXCEPT !.next = DoneAt, !.gd = dv, !.th = b.fv, !.pi = <<>>]
                              ELSE [b EXCEPT !.next = <<e.o + 1, 1, 0>>, !.c = c, !.th = b.fv, !.step = t.step[t.order[1]], !.pi = <<>>, !.gd = dv, !.gdOld = a.gd]
                              : s \in OuterStops(st.kind, t.S, a.min, e.o, a.gd, dv, eps) }
              : r \in InnerOutcomes(st.kind, t.S, a.single, e.o, e.i, a.c, dv, eps) }
      nexts == IF okPred THEN UNION { After(a) : a \in live } ELSE {}
  IN  IF nexts = {} THEN [st |-> Dead, bad |-> clauses]
      ELSE [st |-> [st EXCEPT !.alts = nexts, !.ill = ill], bad |-> clauses]

(******************************* end ***************************************)
End(t, e) ==
  LET done == { a \in st.alts : a.next = DoneAt }
      same == { a \in done : \A p \in 1..NP(t) : e.coef[p] = a.coef[p] }
  IN  IF e.exc # "" THEN [st |-> Dead, bad |-> {"UnexpectedError:" \o e.exc}]
      ELSE IF done = {} THEN [st |-> Dead, bad |-> On("C12", FALSE, "StoppedEarly")]
      ELSE IF same = {} THEN [st |-> Dead, bad |-> On("C12", FALSE, "Commit")]
      ELSE [st |-> [n |-> st.m, dead |-> FALSE, ill |-> st.ill, alts |-> same], bad |-> {}]

Step == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
        /\ LET t == Traces[tid]  e == t.ev[l + 1]
               j == TLCEval(IF st.dead THEN [st |-> Dead, bad |-> {}]
                            ELSE CASE e.op = "begin" -> Begin(t, e) [] e.op = "iter" -> Iter(t, e) [] e.op = "end" -> End(t, e))
           IN  st' = j.st /\ bad' = j.bad
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == bad = {}
Report == ReportFor(tid, l, bad) /\ (st.dead => PrintT("NOTE|dead|" \o ToString(tid) \o "|" \o ToString(l)))
=============================================================================
