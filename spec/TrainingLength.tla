--------------------------- MODULE TrainingLength ---------------------------
(***************************************************************************)
(* Effective training length and the online average.                       *)
(***************************************************************************)
EXTENDS Discount

\* n: number of observations or total weight
EffLen(forget, n) ==
  IF REq(forget, 0) THEN n ELSE RDiv(RSub(1, RPow(RSub(1, forget), n)), forget)
\* the sum of the discount weights of n rows
SumOfDiscounts(forget, n) == RSum(TLCEval([i \in 1..n |-> RPowI(RSub(1, forget), n - i)]))

\* the discounted mean of values v, oldest first
DMean(v, forget) == LET g == RSub(1, forget)  w == Ones(Len(v)) IN RDiv(SumOf(v, w, g), SumOf(w, w, g))
\* one online step; n counts the observations including the new value
MeanStep(avg, v, forget, n) == RAdd(avg, RDiv(RSub(v, avg), EffLen(forget, n)))
RECURSIVE MeanSteps(_, _, _, _)
MeanSteps(avg, vs, forget, n) ==
  IF vs = <<>> THEN avg
  ELSE MeanSteps(MeanStep(avg, vs[1], forget, n - Len(vs) + 1), Tail(vs), forget, n)
=============================================================================
