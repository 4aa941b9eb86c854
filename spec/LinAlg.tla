------------------------------ MODULE LinAlg ------------------------------
(***************************************************************************)
(* Vectors are sequences of reals, matrices are sequences of rows.         *)
(***************************************************************************)
EXTENDS RealArith

VAdd(s, t) == [i \in DOMAIN s |-> RAdd(s[i], t[i])]
VSub(s, t) == [i \in DOMAIN s |-> RSub(s[i], t[i])]
VMul(s, t) == [i \in DOMAIN s |-> RMul(s[i], t[i])]
VDiv(s, t) == [i \in DOMAIN s |-> RDiv(s[i], t[i])]
VScale(k, s) == [i \in DOMAIN s |-> RMul(k, s[i])]

NCols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
Col(A, j) == [i \in DOMAIN A |-> A[i][j]]
MatVec(A, v) == [i \in DOMAIN A |-> RDot(A[i], v)]
MatMul(A, B) == [i \in DOMAIN A |-> [j \in 1..NCols(B) |-> RDot(A[i], Col(B, j))]]
MatAdd(A, B) == [i \in DOMAIN A |-> VAdd(A[i], B[i])]
MatScale(k, A) == [i \in DOMAIN A |-> VScale(k, A[i])]
Identity(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN RInt(1) ELSE RInt(0)]]
Outer(s, t) == [i \in DOMAIN s |-> VScale(s[i], t)]

\* X' diag(w) X and X' diag(w) y
WGram(X, w) == [i \in 1..NCols(X) |-> [j \in 1..NCols(X) |-> RDot3(Col(X, i), Col(X, j), w)]]
WCross(X, y, w) == [i \in 1..NCols(X) |-> RDot3(Col(X, i), y, w)]

\* The z with A z = b, and the inverse of A; <<>> if A is singular.
Solve(A, b) == IF \E z \in {} : MatVec(A, z) = b THEN CHOOSE z \in {} : MatVec(A, z) = b ELSE <<>>
Inverse(A) == IF \E Z \in {} : MatMul(A, Z) = Identity(Len(A)) THEN CHOOSE Z \in {} : MatMul(A, Z) = Identity(Len(A)) ELSE <<>>

MatClose(A, B, rt, at) == Len(A) = Len(B) /\ \A i \in DOMAIN A : VClose(A[i], B[i], rt, at)
MatMaxAbs(A) == VMaxAbs([i \in DOMAIN A |-> VMaxAbs(A[i])])
MatFinite(A) == \A i \in DOMAIN A : VFinite(A[i])
Ones(n) == [i \in 1..n |-> RInt(1)]
Zeros(n) == [i \in 1..n |-> RInt(0)]
WithIntercept(X) == [i \in DOMAIN X |-> <<RInt(1)>> \o X[i]]
=============================================================================
