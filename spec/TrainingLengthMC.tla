-------------------------- MODULE TrainingLengthMC --------------------------
EXTENDS TrainingLength, Json
CONSTANTS N
VARIABLES f, pos, sizes, avg
vars == <<f, pos, sizes, avg>>
Vs == TLCEval([i \in 1..N |-> RInt(((i * i * 3) % 13) - 5)])
Init == f \in { RInt(0), RFrac(1, 100), RFrac(1, 2), RFrac(9, 10) } /\ pos = 1 /\ sizes = <<1>> /\ avg = Vs[1]
Update == \E k \in 1..(N - pos) :
   /\ pos' = pos + k /\ sizes' = Append(sizes, k) /\ f' = f
   /\ avg' = MeanSteps(avg, SubSeq(Vs, pos + 1, pos + k), f, pos + k)
Next == Update
Spec == Init /\ [][Next]_vars
e == RTen(-40)
MeanIsDiscountedMean == RClose(avg, DMean(SubSeq(Vs, 1, pos), f), e, e)
LengthIsSum == RClose(EffLen(f, RInt(pos)), SumOfDiscounts(f, pos), e, e)
BelowAsymptote == REq(f, 0) \/ RLeq(EffLen(f, RInt(pos)), RDiv(1, f))
Emit == IF pos = N /\ REq(f, 0) THEN PrintT("SCN|" \o ToJson([sizes |-> sizes])) ELSE TRUE
=============================================================================
