--------------------------- MODULE CoordDescentMC ---------------------------
(***************************************************************************)
(* Coordinate descent with every visiting order: sweep 1 runs through the  *)
(* coefficients in order, every later sweep visits the non-zero ones in an *)
(* arbitrary order.  Checked for all problems of a small grid: no visit    *)
(* raises the objective, coefficients stay inside their bounds, the number *)
(* of sweeps is bounded, and a sweep without any change means that no      *)
(* visited coefficient alone can improve the objective.                    *)
(***************************************************************************)
EXTENDS CoordDescent, Json, FiniteSets

CONSTANTS MaxIt, Dim

VARIABLES P, b, old, todo, sweep, f, done
vars == <<P, b, old, todo, sweep, f, done>>

Gs == IF Dim = 2
      THEN { <<<<RInt(2), RInt(o)>>, <<RInt(o), RInt(1)>>>> : o \in {-1, 0, 1} }
      ELSE { <<<<RInt(2), RInt(o), RInt(0)>>, <<RInt(o), RInt(2), RInt(1)>>, <<RInt(0), RInt(1), RInt(1)>>>> : o \in {-1, 1} }
Hs == IF Dim = 2 THEN { <<RInt(a), RInt(c)>> : a \in {-3, 1, 4}, c \in {-2, 0, 2} }
      ELSE { <<RInt(a), RInt(c), RInt(2)>> : a \in {-3, 4}, c \in {-1, 3} }
Regs == { r \in [1..Dim -> BOOLEAN] : r[2] }
Starts == { Zeros(Dim), [j \in 1..Dim |-> RInt(IF j = 1 THEN 1 ELSE -1)] }
Boxes == { <<[j \in 1..Dim |-> RInt(-1)], [j \in 1..Dim |-> RInt(1)]>>,
           <<[j \in 1..Dim |-> RNeg(RInf)], [j \in 1..Dim |-> RInf]>>,
           <<[j \in 1..Dim |-> IF j = 1 THEN RInt(0) ELSE RInt(-1)], [j \in 1..Dim |-> RInt(2)]>> }
tol == RTen(-1)

Init == /\ P \in { [G |-> G, h |-> h, reg |-> r, lam |-> lam, al |-> al, lo |-> bx[1], hi |-> bx[2]] :
                   G \in Gs, h \in Hs, r \in Regs, lam \in {RInt(0), RInt(1)}, al \in {RInt(0), RFrac(1, 2), RInt(1)}, bx \in Boxes }
        /\ b \in Starts /\ InBounds(P, b)
        /\ old = b /\ sweep = 1 /\ todo = Cyclic(Dim) /\ f = Objective(P, b) /\ done = FALSE

Perms == { p \in [1..Dim -> 1..Dim] : Cardinality({p[i] : i \in 1..Dim}) = Dim }

VisitNext == /\ ~done /\ todo # <<>>
             /\ b' = Visit(P, b, Head(todo), sweep = 1)
             /\ f' = Objective(P, b')
             /\ todo' = Tail(todo)
             /\ UNCHANGED <<P, old, sweep, done>>
EndSweep == /\ ~done /\ todo = <<>>
            /\ IF Converged(b, old, tol) \/ sweep > MaxIt
               THEN done' = TRUE /\ UNCHANGED <<sweep, todo, old>>
               ELSE sweep' = sweep + 1 /\ old' = b /\ done' = FALSE /\ todo' \in Perms
            /\ UNCHANGED <<P, b, f>>
Next == VisitNext \/ EndSweep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

eps == RTen(-40)
Descent == [][RLeq(f', RAdd(f, eps))]_vars
Bounded == InBounds(P, b)
SweepLimit == sweep <= MaxIt + 1
FixpointIsOptimal ==
  (todo = <<>> /\ REq(Change(b, old), 0)) =>
     \A j \in 1..Dim : (sweep = 1 \/ ~REq(b[j], 0)) => RClose(b[j], CoordMin(P, b, j), eps, eps)
Terminates == <>done
=============================================================================
