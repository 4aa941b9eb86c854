-------------------------- MODULE DistributionsMC --------------------------
(***************************************************************************)
(* The laws are laws: on a lattice of parameter vectors and of quantile    *)
(* positions the density is the derivative of the distribution function,   *)
(* the distribution function increases from 0 to 1, total mass is one, the *)
(* mean is the first moment, the score has expectation zero.  The state    *)
(* walks along the nodes of a double exponential quadrature and            *)
(* accumulates the integrals.                                              *)
(***************************************************************************)
EXTENDS Distributions
CONSTANTS Den, KMax
VARIABLES d, c, k, mass, first, scores, last
vars == <<d, c, k, mass, first, scores, last>>

Q(a, b) == RFrac(a, b)
\* parameter vectors per law: c picks one
Lattice(law) ==
  CASE law \in {"Normal", "NormalMeanVariance", "Logistic", "Gumbel", "ReverseGumbel"} -> {<<RInt(0), RInt(1)>>, <<RInt(-3), Q(5, 2)>>, <<Q(7, 3), Q(1, 7)>>}
    [] law = "StudentT" -> {<<RInt(0), RInt(1), RInt(5)>>, <<RInt(2), Q(1, 3), RInt(3)>>}
    [] law = "JSU" -> {<<RInt(0), RInt(1), RInt(0), RInt(2)>>, <<RInt(1), Q(1, 2), Q(-3, 4), Q(3, 2)>>}
    [] law = "Beta" -> {<<Q(1, 2), Q(1, 2)>>, <<Q(1, 5), Q(3, 10)>>}
    [] law = "BetaInflated" -> {<<Q(1, 2), Q(1, 2), RInt(1), Q(1, 3)>>, <<Q(1, 5), Q(3, 10), Q(1, 9), RInt(2)>>}
    [] law = "BetaInflatedZero" -> {<<Q(1, 2), Q(1, 2), RInt(1)>>, <<Q(3, 5), Q(3, 10), Q(1, 9)>>}
    [] law = "ZeroAdjustedGamma" -> {<<RInt(1), Q(1, 2), Q(1, 3)>>, <<RInt(20), Q(6, 5), Q(9, 10)>>}
    [] law = "Exponential" -> {<<RInt(1)>>, <<Q(7, 2)>>}
    [] law = "LogNormal" -> {<<RInt(0), RInt(1)>>, <<RInt(-2), Q(1, 3)>>}
    [] law = "InverseGamma" -> {<<RInt(1), Q(1, 2)>>, <<RInt(4), Q(7, 10)>>}
    [] OTHER -> {<<RInt(1), Q(1, 2)>>, <<RInt(4), RInt(1)>>}

AtomW(law, th, a) == RExp(LogPdf(law, RInt(a), th))
RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN RInt(0) ELSE LET a == CHOOSE x \in S : TRUE IN RAdd(f[a], SumSet(S \ {a}, f))
AtomSum(law, f) == SumSet(Atoms(law), f)

Init == /\ d \in Laws /\ c \in Lattice(d) /\ k = 0 - KMax
        /\ mass = AtomSum(d, TLCEval([a \in Atoms(d) |-> AtomW(d, c, a)]))
        /\ first = AtomSum(d, TLCEval([a \in Atoms(d) |-> RMul(RInt(a), AtomW(d, c, a))]))
        /\ scores = TLCEval([i \in 1..NParams(d) |-> AtomSum(d, TLCEval([a \in Atoms(d) |-> RMul(Score(d, i, RInt(a), c), AtomW(d, c, a))]))])
        /\ last = RInt(0)
Next == /\ k <= KMax /\ k' = k + 1
        /\ LET n == Node(d, c, k, Den)
               w == RDiv(RMul(RExp(LogPdf(d, n[1], c)), n[2]), Den)
           IN /\ mass' = TLCEval(RAdd(mass, w))
              /\ first' = TLCEval(RAdd(first, RMul(w, n[1])))
              /\ scores' = TLCEval(IF RLt(w, RTen(-60)) THEN scores ELSE [i \in DOMAIN scores |-> RAdd(scores[i], RMul(w, Score(d, i, n[1], c)))])
              /\ last' = TLCEval(Cdf(d, n[1], c))
        /\ UNCHANGED <<d, c>>
Spec == Init /\ [][Next]_vars

Here == Node(d, c, k, Den)[1]
\* the distribution function never decreases along the nodes and stays in [0, 1]
Monotone == k > 0 - KMax /\ k <= KMax => RLeq(last, RAdd(Cdf(d, Here, c), RTen(-40))) /\ RLeq(0, last) /\ RLeq(last, RAdd(1, RTen(-40)))
\* the density is its derivative
DensityIsDerivative ==
  k > 0 - KMax /\ k <= KMax /\ RLt(RTen(-12), Cdf(d, Here, c)) /\ RLt(Cdf(d, Here, c), RSub(1, RTen(-12))) /\ RLt(RTen(-14), RAbs(Here)) =>
     LET h == RMul(RTen(-14), IF d \in UnitLaws THEN RMul(Here, RSub(1, Here)) ELSE IF d \in RealLaws THEN c[2] ELSE Here)
     IN RClose(RDiv(RSub(Cdf(d, RAdd(Here, h), c), Cdf(d, RSub(Here, h), c)), RMul(2, h)), RExp(LogPdf(d, Here, c)), RTen(-15), RTen(-18))
Done == k = KMax + 1
TotalMass == Done => RClose(mass, 1, RTen(-8), 0)
MeanIsFirstMoment == Done => RClose(first, Mean(d, c), RTen(-7), RTen(-8))
ScoreIsCentred == Done => \A i \in DOMAIN scores : RClose(scores[i], 0, 0, RTen(-7))
=============================================================================
