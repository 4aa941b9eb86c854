--------------------------- MODULE InfoCriteriaMC ---------------------------
(***************************************************************************)
(* The design of the selection, checked exhaustively: rows enter in every  *)
(* split; the accumulated discounted squared error of a fixed path does    *)
(* not depend on the split; the selected row minimises the criterion, a    *)
(* constant added to all likelihoods changes nothing, "max" selects the    *)
(* smallest error and a criterion never prefers more parameters at the     *)
(* same error.                                                             *)
(***************************************************************************)
EXTENDS InfoCriteria, Discount, TrainingLength, Json
CONSTANTS N, MinInit
VARIABLES g, c, pos, sizes, rss
vars == <<g, c, pos, sizes, rss>>

Xs == TLCEval([i \in 1..N |-> <<RInt(1), RInt(((i * i + 3 * i) % 7) - 3)>>])
Ys == TLCEval([i \in 1..N |-> RInt(((i * 5) % 11) - 4)])
Ws == TLCEval([i \in 1..N |-> IF i % 4 = 0 THEN RInt(0) ELSE IF i % 3 = 0 THEN RFrac(1, 2) ELSE RInt((i % 2) + 1)])
Path == << <<RFrac(1, 2), RInt(0)>>, <<RFrac(1, 2), RFrac(1, 4)>>, <<RFrac(1, 3), RFrac(1, 3)>> >>
Forget(gg) == RSub(1, gg)

SS(a, b) == LET w == TLCEval(DWeights(SubSeq(Ws, a, b), g))
                e(k) == [i \in 1..(b - a + 1) |-> RSub(Ys[a + i - 1], RDot(Xs[a + i - 1], Path[k]))]
            IN  TLCEval([k \in DOMAIN Path |-> LET r == TLCEval(e(k)) IN RDot3(r, r, w)])
Init == /\ g \in {RInt(1), RFrac(9, 10)} /\ c \in Criteria
        /\ \E k \in MinInit..N : pos = k /\ sizes = <<k>> /\ rss = SS(1, k)
Update == \E k \in 1..(N - pos) :
  /\ pos' = pos + k /\ sizes' = Append(sizes, k) /\ UNCHANGED <<g, c>>
  /\ rss' = TLCEval(LET s == SS(pos + 1, pos + k) IN [i \in DOMAIN Path |-> RAdd(RMul(RPowI(g, k), rss[i]), s[i])])
Next == Update
Spec == Init /\ [][Next]_vars

SplitFree == VClose(rss, SS(1, pos), RTen(-40), RTen(-40))
n == EffLen(Forget(g), RSum(SubSeq(Ws, 1, pos)))
LL == TLCEval([i \in DOMAIN Path |-> LLofRSS(n, rss[i])])
Chosen(ll) == { i \in DOMAIN Path : SelectionOK(c, n, Path, ll, 0, Path[i]) }
Value(i) == IC(c, n, RInt(CountAbove(Path[i], 0)), LL[i])
SomeChosen == Chosen(LL) # {}
ChosenIsBest == (\A i \in DOMAIN Path : RIsFinite(Value(i))) => \A i \in Chosen(LL), k \in DOMAIN Path : RLeq(Value(i), RAdd(Value(k), RTen(-5)))
ShiftFree == Chosen(LL) = Chosen(TLCEval([i \in DOMAIN Path |-> RAdd(LL[i], 7)]))
MaxIsSmallestError == c = "max" => \A i \in Chosen(LL), k \in DOMAIN Path : RLeq(rss[i], RMul(rss[k], RAdd(1, RTen(-5))))
FewerParameters == (c \in {"aic", "bic", "max"} /\ RLt(1, n)) => RLeq(IC(c, n, RInt(1), LL[1]), IC(c, n, RInt(2), LL[1]))
Emit == IF pos = N /\ g = RInt(1) THEN PrintT("SCN|" \o ToJson([sizes |-> sizes, c |-> c])) ELSE TRUE
=============================================================================
