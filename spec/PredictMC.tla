----------------------------- MODULE PredictMC -----------------------------
(***************************************************************************)
(* The design of predictions, checked for every equation (every ordered    *)
(* selection of the J columns, with and without intercept) and every       *)
(* ordered list of quantile levels of a small discrete law: columns        *)
(* outside the equation have no influence, contributions add up to the     *)
(* predictor, parameters are in range, quantile columns follow the         *)
(* requested levels and are ordered like them.                             *)
(***************************************************************************)
EXTENDS Predict, FiniteSets, Json
CONSTANTS J, NLevels
VARIABLES eq, icpt, levels
vars == <<eq, icpt, levels>>

Coef(n) == [j \in 1..n |-> RInt(((j * 3) % 5) - 2)]
Row0 == [j \in 1..J |-> RInt(2 * j - 3)]
Perturb(z, S) == [j \in 1..J |-> IF j \in S THEN RAdd(z[j], RInt(50)) ELSE z[j]]
Links0 == { [kind |-> k, v |-> 0] : k \in {"identity", "log", "logident", "softplus", "logit"} }

Injective(s) == Cardinality({ s[i] : i \in DOMAIN s }) = Len(s)
Ordered(n) == { s \in UNION { [1..k -> 1..n] : k \in 0..n } : Injective(s) }
Init == /\ eq \in Ordered(J) /\ icpt \in BOOLEAN /\ (eq = <<>> => icpt)
        /\ levels \in { s \in Ordered(NLevels) : s # <<>> }
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

X(z) == ModelRow(z, eq, icpt)
B == Coef(Len(eq) + (IF icpt THEN 1 ELSE 0))
NoInfluence == LET S == (1..J) \ { eq[k] : k \in DOMAIN eq } IN X(Perturb(Row0, S)) = X(Row0)
Influence == \A j \in { eq[k] : k \in DOMAIN eq } : X(Perturb(Row0, {j})) # X(Row0)
AddUp == REq(RSum(Contributions(X(Row0), B)), Predictor(X(Row0), B))
InRange == \A lk \in Links0 : LET v == Parameter(lk, Predictor(X(Row0), B)) IN
              /\ RIsFinite(v) /\ (lk.kind # "identity" => RLt(0, v)) /\ (lk.kind = "logit" => RLt(v, 1))
\* the quantile function of a law on 0, 1, 2 with masses 1/4, 1/2, 1/4; level k is k / (NLevels + 1)
Cum == <<RFrac(1, 4), RFrac(3, 4), RInt(1)>>
Q(k) == CHOOSE x \in 0..2 : RLeq(RFrac(k, NLevels + 1), Cum[x + 1]) /\ \A z \in 0..(x - 1) : RLt(Cum[z + 1], RFrac(k, NLevels + 1))
OrderedColumns == \A a, b \in DOMAIN levels : levels[a] <= levels[b] => Q(levels[a]) <= Q(levels[b])
Emit == IF Len(levels) = NLevels \/ eq = <<>> THEN PrintT("SCN|" \o ToJson([eq |-> eq, icpt |-> icpt, levels |-> levels])) ELSE TRUE
=============================================================================
