----------------------------- MODULE RealArith -----------------------------
(***************************************************************************)
(* Real numbers for TLC.  A number is either a TLC integer or a value of   *)
(* the Java class vreal.RealValue: a binary floating point number with a   *)
(* 192 bit mantissa, plus NaN and the infinities.  IEEE doubles recorded   *)
(* from the implementation are represented exactly, so the specification   *)
(* computes the true result of every formula to 57 decimal digits and the  *)
(* only tolerance in a comparison is the one for the implementation.       *)
(* The definitions below state what each operator means; TLC evaluates     *)
(* them with java/vreal/Overrides.java.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LOCAL Undef(x) == CHOOSE r \in {} : x = r

RInt(a) == Undef(a)          \* the integer a as a real number
RAdd(a, b) == Undef(<<a, b>>)
RSub(a, b) == Undef(<<a, b>>)
RMul(a, b) == Undef(<<a, b>>)
RDiv(a, b) == Undef(<<a, b>>)
RNeg(a) == RSub(0, a)
RAbs(a) == Undef(a)
RSign(a) == Undef(a)
RLeq(a, b) == Undef(<<a, b>>) \* FALSE if one of them is NaN
RLt(a, b) == Undef(<<a, b>>)
REq(a, b) == RLeq(a, b) /\ RLeq(b, a)
RMax(a, b) == IF RLeq(a, b) THEN b ELSE a
RMin(a, b) == IF RLeq(a, b) THEN a ELSE b
RIsFinite(a) == Undef(a)
RIsNaN(a) == Undef(a)
RSqrt(a) == Undef(a)
RExp(a) == Undef(a)
RLog(a) == Undef(a)
RLog1p(a) == RLog(RAdd(1, a))
RAsinh(a) == RLog(RAdd(a, RSqrt(RAdd(RMul(a, a), 1))))
RPowI(a, n) == Undef(<<a, n>>) \* n is a TLC integer
RPow(a, y) == RExp(RMul(y, RLog(a)))
RPi == Undef("pi")
RNaN == Undef("nan")
RInf == Undef("inf")
RLGamma(a) == Undef(a)         \* log of the gamma function
RDigamma(a) == Undef(a)
RTrigamma(a) == Undef(a)
RGammaP(a, x) == Undef(<<a, x>>)      \* regularised lower incomplete gamma function
RGammaQ(a, x) == RSub(1, RGammaP(a, x)) \* upper
RBetaI(a, b, x) == Undef(<<a, b, x>>) \* regularised incomplete beta function
RNormCdf(a) == Undef(a)

RFrac(a, b) == RDiv(RInt(a), RInt(b))
RTen(k) == RPowI(RInt(10), k)

\* |a - b| <= at + rt * max(|a|, |b|); never true with NaN, equality for infinities
RClose(a, b, rt, at) == RLeq(RAbs(RSub(a, b)), RAdd(at, RMul(rt, RMax(RAbs(a), RAbs(b)))))
VClose(s, t, rt, at) == Len(s) = Len(t) /\ \A i \in DOMAIN s : RClose(s[i], t[i], rt, at)

RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN RInt(0) ELSE RAdd(Head(s), RSum(Tail(s)))
RDot(s, t) == RSum([i \in DOMAIN s |-> RMul(s[i], t[i])])
RDot3(s, t, u) == RSum([i \in DOMAIN s |-> RMul(RMul(s[i], t[i]), u[i])])
RECURSIVE VMaxAbs(_)
VMaxAbs(s) == IF s = <<>> THEN RInt(0) ELSE RMax(RAbs(Head(s)), VMaxAbs(Tail(s)))

VFinite(s) == \A i \in DOMAIN s : RIsFinite(s[i])

\* The traces recorded by the harness: one JSON document per line, given as a sequence.
\* A name starting with $ is a JVM property holding the file name.
LoadTraces(name) == Undef(name)
=============================================================================
