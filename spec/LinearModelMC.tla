--------------------------- MODULE LinearModelMC ---------------------------
(***************************************************************************)
(* All histories (initial block and batches) of a small stream, with and   *)
(* without scaling and intercept: recursive least squares through the      *)
(* inverse equals the batch solution, and integer weights equal repeated   *)
(* rows.                                                                   *)
(***************************************************************************)
EXTENDS LinearModel, Json, SequencesExt
CONSTANTS N, MinInit
VARIABLES g, scale, icpt, pos, sizes, D, V, h
vars == <<g, scale, icpt, pos, sizes, D, V, h>>
Xs == TLCEval([i \in 1..N |-> << RInt(((i * i * 3) % 7) - 3), RInt(((i * 5 + i * i) % 9) - 4) >>])
Ys == TLCEval([i \in 1..N |-> RInt(((i * 7) % 11) - 4)])
Ws == TLCEval([i \in 1..N |-> RInt(IF i % 5 = 4 THEN 0 ELSE (i % 3) + 1)])
Take(M, k) == SubSeq(M, 1, k)
Cols == IF scale THEN <<1, 2>> ELSE <<>>
Gr(DD, w) == TLCEval(WGram(DD, TLCEval(DWeights(w, g))))
Init == /\ g \in { RInt(1), RFrac(1, 2), RFrac(9, 10) } /\ scale \in BOOLEAN /\ icpt \in BOOLEAN
        /\ \E k \in MinInit..N :
           /\ pos = k /\ sizes = <<k>>
           /\ D = Design(Take(Xs, k), MomentsOf(Take(Xs, k), Take(Ws, k), g, Cols), Cols, icpt)
           /\ V = Inverse(Gr(Design(Take(Xs, k), MomentsOf(Take(Xs, k), Take(Ws, k), g, Cols), Cols, icpt), Take(Ws, k)))
           /\ h = CrossOf(Design(Take(Xs, k), MomentsOf(Take(Xs, k), Take(Ws, k), g, Cols), Cols, icpt), Take(Ys, k), Take(Ws, k), g)
Update == \E k \in 1..(N - pos) :
   LET n == pos + k
       mom == MomentsOf(Take(Xs, n), Take(Ws, n), g, Cols)
       B == Design(SubSeq(Xs, pos + 1, n), mom, Cols, icpt)
       w == SubSeq(Ws, pos + 1, n)
   IN  /\ pos' = n /\ sizes' = Append(sizes, k) /\ UNCHANGED <<g, scale, icpt>>
       /\ D' = D \o B
       /\ V' = IF V = <<>> THEN <<>> ELSE StepInverse(V, B, w, g)
       /\ h' = StepCross(h, B, SubSeq(Ys, pos + 1, n), w, g)
Next == Update
Spec == Init /\ [][Next]_vars
e == RTen(-28)
Coef == MatVec(V, h)
OnlineIsBatch == V # <<>> => VClose(Coef, WLS(D, Take(Ys, pos), Take(Ws, pos), g), e, e)
NormalEquations == V # <<>> => RLeq(VMaxAbs(Normal0(D, Take(Ys, pos), Take(Ws, pos), g, Coef)), RTen(-25))
\* weights as repetition counts, nothing forgotten, no scaling (scaling of a split stream depends on the split)
Repeated(M) == FlattenSeq([i \in 1..pos |-> [k \in 1..(IF i % 5 = 4 THEN 0 ELSE (i % 3) + 1) |-> M[i]]])
WeightsAreRepetitions == (V # <<>> /\ g = RInt(1) /\ ~scale) =>
   LET DD == Repeated(D)  YY == Repeated(Ys) IN VClose(Coef, WLS(DD, YY, Ones(Len(DD)), g), e, e)
Emit == IF pos = N /\ g = RInt(1) /\ ~scale /\ icpt THEN PrintT("SCN|" \o ToJson([sizes |-> sizes])) ELSE TRUE
=============================================================================
