----------------------------- MODULE DiscountMC -----------------------------
(***************************************************************************)
(* The design of the online accumulators, checked exhaustively: for every  *)
(* way to split the N rows of a small data set into an initial block and   *)
(* update batches, and every listed discount factor, the online steps      *)
(* reach the defining sums.  Every complete history is printed as a        *)
(* scenario for the conformance driver.                                    *)
(***************************************************************************)
EXTENDS Discount, Json

CONSTANTS N, J, MinInit

VARIABLES g, pos, sizes, G, h, V
vars == <<g, pos, sizes, G, h, V>>

\* a fixed data set in general position, with a zero and a fractional weight
Xs == TLCEval([i \in 1..N |-> [j \in 1..J |-> RInt(IF j = 1 THEN 1 ELSE ((i * i * j + 3 * i + j * j) % 7) - 3)]])
Ys == TLCEval([i \in 1..N |-> RInt(((i * 5) % 11) - 4)])
Ws == TLCEval([i \in 1..N |-> IF i % 4 = 0 THEN RInt(0) ELSE IF i % 3 = 0 THEN RFrac(1, 2) ELSE RInt((i % 2) + 1)])
Gammas == { RInt(1), RFrac(1, 2), RFrac(9, 10) }

Rows(M, a, b) == SubSeq(M, a, b)

Init == /\ g \in Gammas
        /\ \E k \in MinInit..N :
             /\ pos = k /\ sizes = <<k>>
             /\ G = GramOf(Rows(Xs, 1, k), Rows(Ws, 1, k), g)
             /\ h = CrossOf(Rows(Xs, 1, k), Rows(Ys, 1, k), Rows(Ws, 1, k), g)
             /\ V = Inverse(GramOf(Rows(Xs, 1, k), Rows(Ws, 1, k), g))

Update == \E k \in 1..(N - pos) :
  LET X == Rows(Xs, pos + 1, pos + k)  w == Rows(Ws, pos + 1, pos + k)  y == Rows(Ys, pos + 1, pos + k)
  IN  /\ pos' = pos + k /\ sizes' = Append(sizes, k) /\ g' = g
      /\ G' = StepGram(G, X, w, g)
      /\ h' = StepCross(h, X, y, w, g)
      /\ V' = IF V = <<>> THEN <<>> ELSE StepInverse(V, X, w, g)

Next == Update
Spec == Init /\ [][Next]_vars

eps == RTen(-40)
GramIsSum == MatClose(G, GramOf(Rows(Xs, 1, pos), Rows(Ws, 1, pos), g), eps, eps)
CrossIsSum == VClose(h, CrossOf(Rows(Xs, 1, pos), Rows(Ys, 1, pos), Rows(Ws, 1, pos), g), eps, eps)
InverseIsInverse == V # <<>> => MatClose(MatMul(V, G), Identity(J), RTen(-30), RTen(-30))
NotVacuous == pos >= J + 1 => V # <<>> \/ sizes[1] < J + 1

Emit == IF pos = N /\ g = RInt(1) THEN PrintT("SCN|" \o ToJson([sizes |-> sizes])) ELSE TRUE
=============================================================================
