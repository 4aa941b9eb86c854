----------------------------- MODULE Estimator -----------------------------
(***************************************************************************)
(* The life cycle of an estimator object.  What it is, is its settings and *)
(* its history: the batches it was fitted with and updated with since the  *)
(* last fit (<<>>: not fitted).  Everything it reports and predicts is a   *)
(* function of these two.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fitted(h) == h # <<>>
Fit(h, b) == <<b>>
Update(h, b) == Append(h, b)
Partial(h, b) == IF Fitted(h) THEN Update(h, b) ELSE Fit(h, b)
Accept(name, h, b) == CASE name = "fit" -> Fit(h, b) [] name = "update" -> Update(h, b) [] name = "partial" -> Partial(h, b)
\* reading, rejected calls and failed first fits
Unchanged(h) == h
\* copies: pickling and deep-copying keep the history, cloning the settings only
Copied(how, h) == IF how = "clone" THEN <<>> ELSE h

(***************************************************************************)
(* Per-parameter settings.  A setting is given as one value for all        *)
(* parameters ([form |-> "single", v]) or as a mapping, a sequence of      *)
(* pairs in the order of its keys ([form |-> "map", m]); parameters the    *)
(* mapping does not name take the default.                                 *)
(***************************************************************************)
Named(s, p) == { k \in DOMAIN s.m : s.m[k].p = p }
Resolve(s, np, default) ==
  [p \in 1..np |-> IF s.form = "single" THEN s.v
                   ELSE IF Named(s, p) = {} THEN default[p] ELSE s.m[CHOOSE k \in Named(s, p) : TRUE].v]
=============================================================================
