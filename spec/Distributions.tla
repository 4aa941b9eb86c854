--------------------------- MODULE Distributions ---------------------------
(***************************************************************************)
(* The laws of the distributional models, as the GAMLSS documentation      *)
(* defines them.  th is the parameter vector of one observation.           *)
(*   LogPdf   log-density (log-probability at a point mass)                *)
(*   Cdf      distribution function                                        *)
(*   Mean     expectation                                                  *)
(*   Score    derivative of LogPdf with respect to one parameter, as a     *)
(*            central difference in 192-bit arithmetic                     *)
(***************************************************************************)
EXTENDS LinAlg

Laws == {"Normal", "NormalMeanVariance", "StudentT", "JSU", "Beta", "BetaInflated", "BetaInflatedZero", "Gamma", "ZeroAdjustedGamma",
         "LogNormal", "LogNormalMedian", "Logistic", "Exponential", "Gumbel", "ReverseGumbel", "InverseGaussian", "InverseGamma"}
NParams(d) == CASE d = "Exponential" -> 1
                [] d \in {"StudentT", "BetaInflatedZero", "ZeroAdjustedGamma"} -> 3
                [] d \in {"JSU", "BetaInflated"} -> 4
                [] OTHER -> 2
RealLaws == {"Normal", "NormalMeanVariance", "StudentT", "JSU", "Logistic", "Gumbel", "ReverseGumbel"}
UnitLaws == {"Beta", "BetaInflated", "BetaInflatedZero"}
PositiveLaws == Laws \ (RealLaws \cup UnitLaws)
\* the points that carry mass
Atoms(d) == CASE d = "BetaInflated" -> {0, 1} [] d \in {"BetaInflatedZero", "ZeroAdjustedGamma"} -> {0} [] OTHER -> {}
AtAtom(d, y) == \E a \in Atoms(d) : REq(y, RInt(a))
InSupport(d, y) == \/ d \in RealLaws
                   \/ AtAtom(d, y)
                   \/ d \in UnitLaws /\ RLt(0, y) /\ RLt(y, 1)
                   \/ d \in PositiveLaws /\ RLt(0, y)
\* which parameters have to be positive, which to lie in (0, 1)
ParamKind(d, i) ==
  CASE d \in UnitLaws /\ i <= 2 -> "unit"
    [] d = "ZeroAdjustedGamma" /\ i = 3 -> "unit"
    [] d \in RealLaws \cup {"LogNormal"} /\ i = 1 -> "real"
    [] d = "JSU" /\ i = 3 -> "real"
    [] OTHER -> "positive"
ParamOK(d, i, v) == /\ RIsFinite(v)
                    /\ ParamKind(d, i) # "real" => RLt(0, v)
                    /\ ParamKind(d, i) = "unit" => RLt(v, 1)

Sq(x) == RMul(x, x)
HalfLog2Pi == RDiv(RLog(RMul(2, RPi)), 2)
LogPhi(z) == RSub(RNeg(RDiv(Sq(z), 2)), HalfLog2Pi)
Z(y, th) == RDiv(RSub(y, th[1]), th[2])
LogBetaFn(a, b) == RSub(RAdd(RLGamma(a), RLGamma(b)), RLGamma(RAdd(a, b)))

\* the two shapes of the beta laws and the shape of the gamma laws
Prec(th) == RDiv(RSub(1, Sq(th[2])), Sq(th[2]))
BAlpha(th) == RMul(th[1], Prec(th))
BBeta(th) == RMul(RSub(1, th[1]), Prec(th))
LogBeta(y, th) == RSub(RAdd(RMul(RSub(BAlpha(th), 1), RLog(y)), RMul(RSub(BBeta(th), 1), RLog(RSub(1, y)))), LogBetaFn(BAlpha(th), BBeta(th)))
GShape(th) == RDiv(1, Sq(th[2]))
GScale(th) == RMul(th[1], Sq(th[2]))
LogGamma(y, th) == RSub(RSub(RMul(RSub(GShape(th), 1), RLog(y)), RDiv(y, GScale(th))),
                        RAdd(RMul(GShape(th), RLog(GScale(th))), RLGamma(GShape(th))))
IScale(th) == RDiv(RMul(th[1], RAdd(1, Sq(th[2]))), Sq(th[2]))
LogLogNormal(y, m, s) == RSub(LogPhi(RDiv(RSub(RLog(y), m), s)), RAdd(RLog(y), RLog(s)))

LogPdf(d, y, th) ==
  IF ~InSupport(d, y) THEN RNeg(RInf) ELSE
  CASE d = "Normal" -> RSub(LogPhi(Z(y, th)), RLog(th[2]))
    [] d = "NormalMeanVariance" -> RNeg(RAdd(RDiv(Sq(RSub(y, th[1])), RMul(2, th[2])), RAdd(HalfLog2Pi, RDiv(RLog(th[2]), 2))))
    [] d = "StudentT" ->
         LET nu == th[3]  h == RDiv(RAdd(nu, 1), 2) IN
         RSub(RSub(RSub(RLGamma(h), RLGamma(RDiv(nu, 2))), RAdd(RDiv(RLog(RMul(nu, RPi)), 2), RLog(th[2]))),
              RMul(h, RLog1p(RDiv(Sq(Z(y, th)), nu))))
    [] d = "JSU" ->
         LET z == Z(y, th)  r == RAdd(th[3], RMul(th[4], RAsinh(z))) IN
         RSub(RAdd(LogPhi(r), RLog(th[4])), RAdd(RLog(th[2]), RDiv(RLog1p(Sq(z)), 2)))
    [] d = "Beta" -> LogBeta(y, th)
    [] d = "BetaInflated" ->
         LET c == RLog(RAdd(1, RAdd(th[3], th[4]))) IN
         IF REq(y, 0) THEN RSub(RLog(th[3]), c) ELSE IF REq(y, 1) THEN RSub(RLog(th[4]), c) ELSE RSub(LogBeta(y, th), c)
    [] d = "BetaInflatedZero" ->
         IF REq(y, 0) THEN RSub(RLog(th[3]), RLog(RAdd(1, th[3]))) ELSE RSub(LogBeta(y, th), RLog(RAdd(1, th[3])))
    [] d = "Gamma" -> LogGamma(y, th)
    [] d = "ZeroAdjustedGamma" -> IF REq(y, 0) THEN RLog(th[3]) ELSE RAdd(RLog(RSub(1, th[3])), LogGamma(y, th))
    [] d = "LogNormal" -> LogLogNormal(y, th[1], th[2])
    [] d = "LogNormalMedian" -> LogLogNormal(y, RLog(th[1]), th[2])
    [] d = "Logistic" -> LET z == RAbs(Z(y, th)) IN RNeg(RAdd(RLog(th[2]), RAdd(z, RMul(2, RLog1p(RExp(RNeg(z)))))))
    [] d = "Exponential" -> RNeg(RAdd(RLog(th[1]), RDiv(y, th[1])))
    [] d = "Gumbel" -> LET z == Z(y, th) IN RSub(RSub(z, RExp(z)), RLog(th[2]))
    [] d = "ReverseGumbel" -> LET z == Z(y, th) IN RSub(RNeg(RAdd(z, RExp(RNeg(z)))), RLog(th[2]))
    [] d = "InverseGaussian" ->
         RNeg(RAdd(RAdd(HalfLog2Pi, RAdd(RLog(th[2]), RMul(RFrac(3, 2), RLog(y)))),
                   RDiv(Sq(RSub(y, th[1])), RMul(RMul(2, y), Sq(RMul(th[2], th[1]))))))
    [] d = "InverseGamma" ->
         RSub(RSub(RMul(GShape(th), RLog(IScale(th))), RLGamma(GShape(th))),
              RAdd(RMul(RAdd(GShape(th), 1), RLog(y)), RDiv(IScale(th), y)))

\* distribution function inside the open support
LOCAL Inner(d, y, th) ==
  CASE d = "Normal" -> RNormCdf(Z(y, th))
    [] d = "NormalMeanVariance" -> RNormCdf(RDiv(RSub(y, th[1]), RSqrt(th[2])))
    [] d = "StudentT" ->
         LET z == Z(y, th)  t == RDiv(RBetaI(RDiv(th[3], 2), RFrac(1, 2), RDiv(th[3], RAdd(th[3], Sq(z)))), 2)
         IN IF RLeq(z, 0) THEN t ELSE RSub(1, t)
    [] d = "JSU" -> RNormCdf(RAdd(th[3], RMul(th[4], RAsinh(Z(y, th)))))
    [] d = "Beta" -> RBetaI(BAlpha(th), BBeta(th), y)
    [] d = "BetaInflated" -> RDiv(RAdd(th[3], RBetaI(BAlpha(th), BBeta(th), y)), RAdd(1, RAdd(th[3], th[4])))
    [] d = "BetaInflatedZero" -> RDiv(RAdd(th[3], RBetaI(BAlpha(th), BBeta(th), y)), RAdd(1, th[3]))
    [] d = "Gamma" -> RGammaP(GShape(th), RDiv(y, GScale(th)))
    [] d = "ZeroAdjustedGamma" -> RAdd(th[3], RMul(RSub(1, th[3]), RGammaP(GShape(th), RDiv(y, GScale(th)))))
    [] d = "LogNormal" -> RNormCdf(RDiv(RSub(RLog(y), th[1]), th[2]))
    [] d = "LogNormalMedian" -> RNormCdf(RDiv(RSub(RLog(y), RLog(th[1])), th[2]))
    [] d = "Logistic" -> RDiv(1, RAdd(1, RExp(RNeg(Z(y, th)))))
    [] d = "Exponential" -> RSub(1, RExp(RNeg(RDiv(y, th[1]))))
    [] d = "Gumbel" -> RSub(1, RExp(RNeg(RExp(Z(y, th)))))
    [] d = "ReverseGumbel" -> RExp(RNeg(RExp(RNeg(Z(y, th)))))
    [] d = "InverseGaussian" ->
         LET lam == RDiv(1, Sq(th[2]))  s == RSqrt(RDiv(lam, y)) IN
         RAdd(RNormCdf(RMul(s, RSub(RDiv(y, th[1]), 1))),
              RMul(RExp(RDiv(RMul(2, lam), th[1])), RNormCdf(RNeg(RMul(s, RAdd(RDiv(y, th[1]), 1))))))
    [] d = "InverseGamma" -> RGammaQ(GShape(th), RDiv(IScale(th), y))

Cdf(d, y, th) ==
  IF d \in RealLaws THEN Inner(d, y, th)
  ELSE IF RLt(y, 0) THEN RInt(0)
  ELSE IF REq(y, 0) THEN (CASE d = "BetaInflated" -> RDiv(th[3], RAdd(1, RAdd(th[3], th[4])))
                            [] d = "BetaInflatedZero" -> RDiv(th[3], RAdd(1, th[3]))
                            [] d = "ZeroAdjustedGamma" -> th[3]
                            [] OTHER -> RInt(0))
  ELSE IF d \in UnitLaws /\ RLeq(1, y) THEN RInt(1)
  ELSE Inner(d, y, th)

\* P(Y < y)
CdfLeft(d, y, th) ==
  IF d \in RealLaws THEN Inner(d, y, th)
  ELSE IF RLeq(y, 0) THEN RInt(0)
  ELSE IF d \in UnitLaws /\ RLeq(1, y)
       THEN IF d = "BetaInflated" /\ REq(y, 1) THEN RDiv(RAdd(1, th[3]), RAdd(1, RAdd(th[3], th[4]))) ELSE RInt(1)
  ELSE Inner(d, y, th)

InClosure(d, x) == InSupport(d, x) \/ (d \notin RealLaws /\ RLeq(0, x) /\ (d \in UnitLaws => RLeq(x, 1)))
\* x is the q-quantile up to rounding: P(Y < x-) <= q <= P(Y <= x+)
QuantileOK(d, th, q, x) ==
  LET del == RMul(RTen(-8), IF d \in RealLaws THEN RAdd(RAbs(RSub(x, th[1])), th[2]) ELSE IF d \in UnitLaws THEN RMin(RAbs(x), RAbs(RSub(1, x))) ELSE RAbs(x))
      ulp == IF d \in UnitLaws THEN RMul(4, RPowI(RInt(2), -53)) ELSE RInt(0)   \* quantiles next to one are rounded
      lo == RSub(x, RAdd(del, ulp))  hi == RAdd(x, RAdd(del, ulp))
  IN /\ RIsFinite(x)
     /\ InClosure(d, x)
     /\ RLeq(CdfLeft(d, lo, th), RAdd(q, RMul(RTen(-6), q)))
     /\ RLeq(RSub(q, RMul(RTen(-6), RSub(1, q))), Cdf(d, hi, th))
     \* strictly inside the mass of an atom the atom itself is the quantile
     /\ \A a \in Atoms(d) : (RLt(RAdd(CdfLeft(d, RInt(a), th), RTen(-9)), q) /\ RLt(q, RSub(Cdf(d, RInt(a), th), RTen(-9)))) => REq(x, RInt(a))

EulerGamma == RNeg(RDigamma(1))
HasMean(d, th) == CASE d = "StudentT" -> RLt(1, th[3]) [] d = "InverseGamma" -> RLt(th[2], 1) [] OTHER -> TRUE
Mean(d, th) ==
  CASE d \in {"Normal", "NormalMeanVariance", "StudentT", "Beta", "Gamma", "Logistic", "Exponential", "InverseGaussian"} -> th[1]
    [] d = "JSU" -> LET q == RDiv(th[3], th[4])  e == RExp(RDiv(1, RMul(2, Sq(th[4])))) IN
                    RSub(th[1], RMul(th[2], RMul(e, RDiv(RSub(RExp(q), RExp(RNeg(q))), 2))))
    [] d = "BetaInflated" -> RDiv(RAdd(th[1], th[4]), RAdd(1, RAdd(th[3], th[4])))
    [] d = "BetaInflatedZero" -> RDiv(th[1], RAdd(1, th[3]))
    [] d = "ZeroAdjustedGamma" -> RMul(RSub(1, th[3]), th[1])
    [] d = "LogNormal" -> RExp(RAdd(th[1], RDiv(Sq(th[2]), 2)))
    [] d = "LogNormalMedian" -> RMul(th[1], RExp(RDiv(Sq(th[2]), 2)))
    [] d = "Gumbel" -> RSub(th[1], RMul(EulerGamma, th[2]))
    [] d = "ReverseGumbel" -> RAdd(th[1], RMul(EulerGamma, th[2]))
    [] d = "InverseGamma" -> RDiv(IScale(th), RSub(GShape(th), 1))

\* the step is small against the parameter and against its distance from the bounds
LOCAL StepOf(d, i, th) ==
  LET v == th[i]
      room == CASE ParamKind(d, i) = "real" -> IF i = 1 /\ NParams(d) > 1 THEN th[2] ELSE RInt(1)
                [] ParamKind(d, i) = "unit" -> RMin(v, RSub(1, v))
                [] OTHER -> v
  IN RMul(RTen(-14), room)
Score(d, i, y, th) ==
  LET h == StepOf(d, i, th) IN
  RDiv(RSub(LogPdf(d, y, [th EXCEPT ![i] = RAdd(@, h)]), LogPdf(d, y, [th EXCEPT ![i] = RSub(@, h)])), RMul(2, h))

(* Integrals by the double exponential rule.  Node k of the law: y and its weight (density times the derivative of the     *)
(* substitution times the step); the step is a power of two given by Den.                                                   *)
LOCAL Sinh(x) == RDiv(RSub(RExp(x), RExp(RNeg(x))), 2)
LOCAL Cosh(x) == RDiv(RAdd(RExp(x), RExp(RNeg(x))), 2)
Node(d, th, k, den) ==
  LET t == RFrac(k, den)
      u == RMul(RDiv(RPi, 2), Sinh(t))
      du == RMul(RDiv(RPi, 2), Cosh(t))
  IN IF d \in RealLaws
     THEN LET s == IF d = "NormalMeanVariance" THEN RSqrt(th[2]) ELSE th[2] IN      \* y = m + s sinh(u)
          LET y == RAdd(th[1], RMul(s, Sinh(u))) IN <<y, RMul(RMul(s, Cosh(u)), du)>>
     ELSE IF d \in UnitLaws
     THEN LET e == RExp(RMul(2, u))  y == RDiv(e, RAdd(1, e)) IN <<y, RMul(RMul(RMul(2, y), RDiv(1, RAdd(1, e))), du)>>
     ELSE LET m == IF d = "LogNormal" THEN RExp(th[1]) ELSE th[1]  y == RMul(m, RExp(u)) IN <<y, RMul(y, du)>>
=============================================================================
