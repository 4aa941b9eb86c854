------------------------------- MODULE Gamlss -------------------------------
(***************************************************************************)
(* The distributional fit.  One call (fit or update) runs outer iterations *)
(* (rounds); a round treats every distribution parameter once in the       *)
(* configured order; treating a parameter is a sequence of inner           *)
(* iterations, each of which solves one weighted regression and evaluates  *)
(* the deviance of the result.                                             *)
(*                                                                         *)
(* Control: which iteration follows, given the deviances.  Comparisons     *)
(* have a slack: where a comparison is closer than that, both answers are  *)
(* allowed.  The design model uses slack 0.                                *)
(***************************************************************************)
EXTENDS LinearModel, RegPath, Links, Distributions, InfoCriteria

Greater(a, b, eps) == IF RLt(RAdd(b, eps), a) THEN {TRUE} ELSE IF RLeq(a, RSub(b, eps)) THEN {FALSE} ELSE BOOLEAN
Less(a, b, eps)    == Greater(b, a, eps)
AtMost(a, b, eps)  == { ~x : x \in Greater(a, b, eps) }
Either(A, B) == { x \/ y : x \in A, y \in B }

\* S: settings [maxOuter, maxInner, absI, relI, absO, relO]; kind: "fit" or "update"
\* single: the number of rounds at the start that have only one inner iteration
Budget(S, single, o) == IF o <= single THEN 1 ELSE S.maxInner
Tolerance(old, new, at, rt, eps, strict) ==
  LET d == RAbs(RSub(old, new)) IN
  Either(IF strict THEN Less(d, at, eps) ELSE AtMost(d, at, eps), Less(d, RMul(rt, RAbs(old)), eps))

MaxHalvings == 5
\* inner iteration i (from 0) of round o (from 1) started at deviance c.old (c.start at i = 0) and ended at dv
InnerOutcomes(kind, S, single, o, i, c, dv, eps) ==
  LET last == i = Budget(S, single, o) - 1
      kept == IF kind = "update" \/ o = 1 THEN {TRUE} ELSE AtMost(dv, c.start, eps)
      met == Tolerance(c.old, dv, S.absI, S.relI, eps, FALSE)
  IN  UNION { LET h == c.half + (IF r /\ (kind = "update" \/ ~last) THEN 1 ELSE 0)
                  tested == IF kind = "fit" THEN o >= 2 \/ i >= 1 ELSE ~r \/ i < S.maxInner - 1
                  stops == IF last \/ h > MaxHalvings THEN {TRUE} ELSE IF tested THEN met ELSE {FALSE}
              IN  { [rose |-> r, half |-> h, stop |-> s, keep |-> k] : s \in stops, k \in kept }
              : r \in Greater(dv, c.old, eps) }

\* may the call stop after round o, which moved the deviance from old to new?
OuterStops(kind, S, min, o, old, new, eps) ==
  IF o >= S.maxOuter THEN {TRUE}
  ELSE IF o < min THEN {FALSE}
  ELSE Either(Tolerance(old, new, S.absO, S.relO, eps, TRUE), IF kind = "fit" THEN Greater(new, old, eps) ELSE {FALSE})

(***************************************************************************)
(* The regression of one inner iteration.  lk = [kind, v] is the link; th  *)
(* the matrix of working fitted values; d1, d2 the derivatives of the log- *)
(* density at th with respect to parameter p.                              *)
(***************************************************************************)
Eta(lk, th, p) == [i \in DOMAIN th |-> Link(lk.kind, lk.v, th[i][p])]
WeightLo == RTen(-10)
WeightHi == RTen(10)
WorkingWeight(lk, e, d2) == LET q == LinkInvD(lk.kind, lk.v, e) IN Clip(RNeg(RMul(d2, RMul(q, q))), WeightLo, WeightHi)
WorkingShift(lk, e, d1, wt) == RDiv(RMul(d1, LinkInvD(lk.kind, lk.v, e)), wt)     \* working response minus linear predictor

\* columns eq of the scaled covariates, after an intercept if icpt
EqRow(z, eq, icpt) == LET c == [k \in DOMAIN eq |-> z[eq[k]]] IN IF icpt THEN <<RInt(1)>> \o c ELSE c
EqDesign(rows, mom, cols, eq, icpt) == TLCEval([i \in DOMAIN rows |-> TLCEval(EqRow(ScaleRow(rows[i], mom, cols), eq, icpt))])

Replace(th, p, v) == TLCEval([i \in DOMAIN th |-> [th[i] EXCEPT ![p] = v[i]]])
LogLiks(law, y, th) == TLCEval([i \in DOMAIN y |-> LogPdf(law, y[i], th[i])])
Deviance(ll, w) == RMul(-2, RDot(ll, w))
Magnitude2(ll, w) == RMul(2, RDot([i \in DOMAIN ll |-> RAbs(ll[i])], w))
=============================================================================
