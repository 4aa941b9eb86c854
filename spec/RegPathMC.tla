----------------------------- MODULE RegPathMC -----------------------------
(***************************************************************************)
(* A path method through an initial fit and updates, row by row.  Checked  *)
(* for every start-value mode of the fit and of the updates, every early   *)
(* stop, mix, intercept treatment and a small set of moment histories: the *)
(* first penalty is the smallest one that empties a lasso, rows respect    *)
(* the bounds, the grid falls, and an early stop freezes the rest of the   *)
(* path.  Every complete history is a scenario for the driver.             *)
(***************************************************************************)
EXTENDS RegPath, Json, FiniteSets
CONSTANTS NLambda, NUpdates
VARIABLES cfg, k, path, done
vars == <<cfg, k, path, done>>

G(kk) == << <<RInt(4 + kk), RInt(1), RInt(-1)>>, <<RInt(1), RInt(3 + kk), RInt(1)>>, <<RInt(-1), RInt(1), RInt(3)>> >>
h(kk) == << RInt(5 - 3 * kk), RInt(-4 - kk), RInt(2 + kk) >>
Modes == {"previous_lambda", "previous_fit", "average"}
Cfgs == [ini : Modes, upd : Modes, early : {0, 1, 2}, al : {RFrac(1, 2), RInt(1)}, icpt : BOOLEAN, bounded : BOOLEAN]
reg == [j \in 1..3 |-> ~(j = 1 /\ ~cfg.icpt)]
lo == [j \in 1..3 |-> IF cfg.bounded THEN RFrac(-1, 2) ELSE RNeg(RInf)]
hi == [j \in 1..3 |-> IF cfg.bounded THEN RFrac(1, 2) ELSE RInf]
lmax(kk) == LambdaMax(G(kk), h(kk), reg)
P(kk, lam) == [G |-> G(kk), h |-> h(kk), reg |-> reg, lam |-> lam, al |-> cfg.al, lo |-> lo, hi |-> hi]
ratio == RFrac(1, 10)
tol == RTen(-3)

RECURSIVE NewPath(_, _, _, _)
NewPath(kk, mode, old, acc) ==
  LET i == Len(acc) + 1 IN
  IF i > NLambda THEN acc
  ELSE LET s == StartRow(mode, IF i = 1 THEN Zeros(3) ELSE acc[i - 1], old[i])
           r == TLCEval(CHOOSE b \in Rows(P(kk, Lambda(lmax(kk), ratio, NLambda, i)), s, cfg.early, tol, 50) : TRUE)
       IN  NewPath(kk, mode, old, Append(acc, r))

Init == cfg \in Cfgs /\ k = -1 /\ path = [i \in 1..NLambda |-> Zeros(3)] /\ done = FALSE
Next == /\ k < NUpdates /\ k' = k + 1 /\ cfg' = cfg
        /\ path' = NewPath(k + 1, IF k = -1 THEN cfg.ini ELSE cfg.upd, path, <<>>)
        /\ done' = (k' = NUpdates)
Spec == Init /\ [][Next]_vars

InBox == \A i \in DOMAIN path : \A j \in 1..3 : RLeq(lo[j], path[i][j]) /\ RLeq(path[i][j], hi[j])
Falls == k >= 0 => \A i \in 1..(NLambda - 1) : RLt(Lambda(lmax(k), ratio, NLambda, i + 1), Lambda(lmax(k), ratio, NLambda, i))
\* minimality of the largest penalty, for the unbounded lasso
Lasso(kk, lam) == CHOOSE b \in CDSolve([P(kk, lam) EXCEPT !.al = RInt(1), !.lo = [j \in 1..3 |-> RNeg(RInf)], !.hi = [j \in 1..3 |-> RInf]],
                                         Zeros(3), RTen(-8), 500) : TRUE
PenalisedZero(b) == \A j \in 1..3 : reg[j] => RLeq(RAbs(b[j]), RTen(-30))
LargestPenalty == k >= 0 => PenalisedZero(Lasso(k, lmax(k))) /\ ~PenalisedZero(Lasso(k, RMul(lmax(k), RFrac(99, 100))))
FirstRowEmpty == (k = 0 /\ cfg.ini = "previous_lambda" /\ cfg.al = RInt(1)) => PenalisedZero(path[1])
Frozen == (k = 0 /\ cfg.ini = "previous_lambda" /\ cfg.early > 0) =>
            \A i \in 2..NLambda : NNZ(path[i - 1]) >= cfg.early => VClose(path[i], path[i - 1], 0, 0)
Emit == done => PrintT("SCN|" \o ToJson([ini |-> cfg.ini, upd |-> cfg.upd, early |-> cfg.early, lasso |-> (cfg.al = RInt(1)), icpt |-> cfg.icpt, bounded |-> cfg.bounded]))
=============================================================================
