---------------------------- MODULE InfoCriteria ----------------------------
(***************************************************************************)
(* Information criteria and the choice of a row of a coefficient path.     *)
(***************************************************************************)
EXTENDS LinAlg

Criteria == {"aic", "aicc", "bic", "hqc", "max"}
\* from a log-likelihood ll with n observations and p parameters
IC(c, n, p, ll) ==
  CASE c = "aic"  -> RAdd(RMul(-2, ll), RMul(2, p))
    [] c = "aicc" -> RAdd(RMul(-2, ll), RDiv(RMul(RMul(2, p), n), RSub(RSub(n, p), 1)))
    [] c = "bic"  -> RAdd(RMul(-2, ll), RMul(p, RLog(n)))
    [] c = "hqc"  -> RAdd(RMul(-2, ll), RMul(RMul(2, p), RLog(RLog(n))))
    [] c = "max"  -> RNeg(ll)
\* the Gaussian log-likelihood at the optimal variance
LLofRSS(n, rss) == RNeg(RMul(RDiv(n, 2), RAdd(RLog(RDiv(rss, n)), RAdd(1, RLog(RMul(2, RPi))))))

\* the number of non-zero coefficients; those closer to zero than tiny may be counted or not
CountAbove(b, tiny) == LET RECURSIVE C(_)
                           C(j) == IF j = 0 THEN 0 ELSE C(j - 1) + (IF RLt(tiny, RAbs(b[j])) THEN 1 ELSE 0)
                       IN  C(Len(b))

\* May coef be reported?  ll[i] is the log-likelihood of row i, other the parameters counted elsewhere.
\* Penalties that are not defined (a logarithm of a training length of at most one) are not judged.
SelectionOK(c, n, path, ll, other, coef) ==
  LET V == TLCEval([i \in DOMAIN path |-> IC(c, n, RInt(other + CountAbove(path[i], 0)), ll[i])])
      mine == { i \in DOMAIN path : path[i] = coef }
  IN  \/ \E i \in DOMAIN path : ~RIsFinite(V[i])
      \/ \E i \in mine : \A k \in DOMAIN path : RLeq(V[i], RAdd(V[k], RMul(RTen(-7), RAdd(1, RAbs(V[k])))))
IsRow(path, coef) == \E i \in DOMAIN path : path[i] = coef
=============================================================================
