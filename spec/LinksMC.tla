------------------------------ MODULE LinksMC ------------------------------
(***************************************************************************)
(* The link laws, checked on every point of a lattice: g and its inverse   *)
(* invert each other, increase strictly, and the derivative formulas are   *)
(* the limits of difference quotients.  The state walks up the lattice of  *)
(* linear predictors.                                                      *)
(***************************************************************************)
EXTENDS Links
CONSTANTS Reach, Den
Lo == 0 - Reach
Hi == Reach
VARIABLES kind, v, k
vars == <<kind, v, k>>
Eta(i) == RFrac(i, Den)
Start(kd) == IF kd = "sqrt" THEN 1 ELSE Lo
Init == kind \in Kinds /\ v \in (IF kind \in {"log", "softplus", "sqrt"} THEN {RInt(0), RInt(2), RFrac(-7, 2)} ELSE {RInt(0)}) /\ k = Start(kind)
Next == k < Hi /\ k' = k + 1 /\ UNCHANGED <<kind, v>>
Spec == Init /\ [][Next]_vars
e == Eta(k)
x == LinkInv(kind, v, e)
d == RTen(-12)
Kink == kind = "logident" /\ k = 0
RoundTrip == RClose(Link(kind, v, x), e, RTen(-40), RTen(-40)) /\ RClose(LinkInv(kind, v, Link(kind, v, x)), x, RTen(-40), RTen(-40))
\* central differences err by about d^2 times a third derivative
InverseDerivative == ~Kink => RClose(LinkInvD(kind, v, e),
    RDiv(RSub(LinkInv(kind, v, RAdd(e, d)), LinkInv(kind, v, RSub(e, d))), RMul(2, d)), RTen(-18), RTen(-20))
LinkDerivative == ~Kink => RClose(RMul(LinkD(kind, v, x), LinkInvD(kind, v, e)), 1, RTen(-35), 0)
SecondDerivative == ~Kink =>
    LET s == RMul(RSub(x, v), RTen(-12))
        s2 == IF kind = "identity" THEN d ELSE IF kind = "logit" THEN RMul(RMul(x, RSub(1, x)), RTen(-12)) ELSE s
    IN RClose(LinkDD(kind, v, x), RDiv(RSub(LinkD(kind, v, RAdd(x, s2)), LinkD(kind, v, RSub(x, s2))), RMul(2, s2)), RTen(-15), RTen(-15))
Increasing == k < Hi => RLt(x, LinkInv(kind, v, Eta(k + 1)))
=============================================================================
