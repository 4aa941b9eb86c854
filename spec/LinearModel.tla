---------------------------- MODULE LinearModel ----------------------------
(***************************************************************************)
(* The online linear model.  Rows enter batch by batch; with input scaling *)
(* the scaler first absorbs the whole batch and the batch enters the       *)
(* statistics standardised by these moments.  Least squares solves the     *)
(* normal equations of the discounted weighted statistics.                 *)
(***************************************************************************)
EXTENDS Scaler

\* moments of the (1-based) columns cols over all raw rows X with weights w
MomentsOf(X, w, g, cols) ==
  TLCEval([c \in DOMAIN cols |->
     LET x == TLCEval([i \in DOMAIN X |-> X[i][cols[c]]]) IN [mean |-> WMean(x, w, g), var |-> WVar(x, w, g)]])
ScaleRow(z, mom, cols) ==
  [j \in DOMAIN z |-> LET S == { c \in DOMAIN cols : cols[c] = j } IN
      IF S = {} THEN z[j] ELSE LET c == CHOOSE c \in S : TRUE IN Standardise(z[j], mom[c].mean, mom[c].var)]
DesignRow(z, icpt) == IF icpt THEN <<RInt(1)>> \o z ELSE z
Design(Z, mom, cols, icpt) == TLCEval([i \in DOMAIN Z |-> TLCEval(DesignRow(ScaleRow(Z[i], mom, cols), icpt))])

\* discounted weighted least squares on design rows D
WLS(D, y, w, g) == LET dw == TLCEval(DWeights(w, g)) IN Solve(TLCEval(WGram(D, dw)), TLCEval(WCross(D, y, dw)))
Normal0(D, y, w, g, b) ==  \* the gradient of the weighted squared error at b
  LET dw == TLCEval(DWeights(w, g)) IN VSub(MatVec(WGram(D, dw), b), WCross(D, y, dw))
=============================================================================
