--------------------------- MODULE StationaryMC ---------------------------
(***************************************************************************)
(* Fisher scoring on small data sets: intercept-only models of three laws  *)
(* whose expected second derivatives are elementary, parameters treated in *)
(* turn.  An iterate that one full round leaves alone has zero gradient,   *)
(* an iterate with zero gradient is left alone, and the iteration arrives  *)
(* there; for the normal law the location is then the weighted mean given  *)
(* the scales.                                                             *)
(***************************************************************************)
EXTENDS Gamlss, TLC
CONSTANTS Rounds
VARIABLES law, y, w, eta, k, moved
vars == <<law, y, w, eta, k, moved>>
Three == {"Normal", "Exponential", "Gamma"}
P(d) == IF d = "Exponential" THEN 1 ELSE 2
Kind(d, p) == IF d = "Normal" /\ p = 1 THEN "identity" ELSE "log"
Ys == { <<1, 2, 4>>, <<1, 3, 3>>, <<2, 3, 7>>, <<5, 1, 2>> }
Ws == { <<1, 1, 1>>, <<2, 1, 0>>, <<1, 3, 2>> }
N == 3
Th(d, e) == [p \in 1..P(d) |-> LinkInv(Kind(d, p), RInt(0), e[p])]
\* expected second derivative
D2(d, p, th) == CASE d = "Normal" /\ p = 1 -> RNeg(RDiv(1, Sq(th[2])))
                  [] d = "Normal" /\ p = 2 -> RNeg(RDiv(2, Sq(th[2])))
                  [] d = "Exponential" -> RNeg(RDiv(1, Sq(th[1])))
                  [] d = "Gamma" /\ p = 1 -> RNeg(RDiv(1, Sq(RMul(th[1], th[2]))))
                  [] d = "Gamma" /\ p = 2 -> RNeg(RDiv(2, Sq(th[2])))       \* an approximation serves as well: it only scales the step
One(d, e, p) ==   \* the intercept of the working regression
  LET th == Th(d, e)
      lk == [kind |-> Kind(d, p), v |-> RInt(0)]
      wt == WorkingWeight(lk, e[p], D2(d, p, th))
      z == [i \in 1..N |-> RAdd(e[p], WorkingShift(lk, e[p], Score(d, p, RInt(y[i]), th), wt))]
  IN  TLCEval([e EXCEPT ![p] = RDiv(RDot(z, [i \in 1..N |-> RInt(w[i])]), RInt(w[1] + w[2] + w[3]))])
Grad(d, e, p) == LET th == Th(d, e) IN RSum([i \in 1..N |-> RMul(RInt(w[i]), RMul(Score(d, p, RInt(y[i]), th), LinkInvD(Kind(d, p), RInt(0), e[p])))])
Start(d) == [p \in 1..P(d) |-> IF d = "Normal" /\ p = 1 THEN RInt(1) ELSE RInt(0)]
Init == law \in Three /\ y \in Ys /\ w \in Ws /\ eta = Start(law) /\ k = 0 /\ moved = TRUE
Tiny == RTen(-14)
Next == /\ k < Rounds /\ k' = k + 1 /\ UNCHANGED <<law, y, w>>
        /\ LET a == One(law, eta, 1)  b == IF P(law) = 2 THEN One(law, a, 2) ELSE a IN
           eta' = b /\ moved' = ~VClose(b, eta, 0, Tiny)
Spec == Init /\ [][Next]_vars
Flat == \A p \in 1..P(law) : RLeq(RAbs(Grad(law, eta, p)), RTen(-10))
FixedIsStationary == ~moved => Flat
StationaryIsFixed == (\A p \in 1..P(law) : RLeq(RAbs(Grad(law, eta, p)), RTen(-20))) => VClose(One(law, eta, 1), eta, 0, RTen(-18))
Arrives == k = Rounds => ~moved
WeightedMean == (~moved /\ law = "Normal") => RClose(eta[1], RDiv(RInt(w[1] * y[1] + w[2] * y[2] + w[3] * y[3]), RInt(w[1] + w[2] + w[3])), 0, RTen(-9))
=============================================================================
