--------------------------- MODULE EstimatorTrace ---------------------------
(***************************************************************************)
(* Conformance of estimator objects.  t.obs is a table of observations     *)
(* (everything an object reports and predicts, as one vector); an event    *)
(* refers to one by its index, 0 when there is none.  The specification    *)
(* holds settings and history of every object and the first observation    *)
(* of every (settings, history); a later observation of the same must be   *)
(* equal to it up to rounding.                                             *)
(* Every event also carries digests of the inputs and of the settings      *)
(* objects before and after the call.                                      *)
(***************************************************************************)
EXTENDS TraceBase, Estimator
VARIABLES tid, l, est, seen, bad
vars == <<tid, l, est, seen, bad>>
Empty == [k \in {} |-> 0]
Init == tid \in DOMAIN Traces /\ l = 0 /\ est = Empty /\ seen = Empty /\ bad = {}

Cfg(e) == IF Has(e, "settings")
          THEN [base |-> e.cfg, s |-> [k \in DOMAIN e.settings |-> Resolve(e.settings[k], e.np, e.settings[k].d)]]
          ELSE [base |-> e.cfg, s |-> <<>>]

\* rounding of repeated computations
Near(a, b) == RClose(a, b, RTen(-7), RTen(-9)) \/ (RIsNaN(a) /\ RIsNaN(b)) \/ (~RIsFinite(a) /\ REq(a, b))
SameObs(t, a, b) == a = b \/ (a # 0 /\ b # 0 /\ Len(t.obs[a]) = Len(t.obs[b]) /\ \A i \in DOMAIN t.obs[a] : Near(t.obs[a][i], t.obs[b][i]))
\* the observation o of an object in state s
Known(t, s, o) == s \notin DOMAIN seen \/ SameObs(t, seen[s], o)
Learn(s, o) == IF s \in DOMAIN seen THEN seen ELSE seen @@ (s :> o)

Quiet(e) == (IF e.ib # e.ia THEN {"InputsModified"} ELSE {}) \cup (IF e.sb # e.sa THEN {"SettingsModified"} ELSE {})
State(s, h) == [cfg |-> s.cfg, hist |-> h]

Call(t, e) ==
  LET s == est[e.id]  h == Accept(e.name, s.hist, e.b) IN
  \* a call on valid data that fails numerically does so for every object with this history; nothing is said about the object afterwards
  IF e.exc # "" THEN [est |-> [est EXCEPT ![e.id].dead = TRUE], seen |-> Learn(State(s, h), e.obs),
                      bad |-> Chk(Known(t, State(s, h), e.obs), "UnexpectedError:" \o e.exc)]
  ELSE IF Has(e, "unseen") THEN [est |-> [est EXCEPT ![e.id].hist = h], seen |-> seen, bad |-> {}]
  ELSE [est |-> [est EXCEPT ![e.id].hist = h], seen |-> Learn(State(s, h), e.obs),
        bad |-> Chk(Known(t, State(s, h), e.obs), IF e.name = "partial" THEN "IncrementalCall" ELSE "DeterminedByHistory")]
Read(t, e) ==
  LET s == est[e.id] IN
  IF ~Fitted(s.hist) THEN [est |-> est, seen |-> seen, bad |-> Chk(e.exc = "NotFittedError", "NotFitted")]
  ELSE IF e.exc # "" THEN [est |-> est, seen |-> seen, bad |-> {"UnexpectedError:" \o e.exc}]
  ELSE [est |-> est, seen |-> seen, bad |-> Chk(Known(t, State(s, s.hist), e.obs), "ReadingChangesNothing")]
Reject(t, e) ==
  LET s == est[e.id] IN
  [est |-> est, seen |-> seen, bad |-> Chk(e.exc # "", "Rejected:" \o e.kind)
     \cup Chk(e.support => e.exc = "OutOfSupportError", "SupportError")
     \cup Chk(e.exc = "" \/ Known(t, State(s, s.hist), e.obs), "RejectedCallChangedState:" \o e.kind)]
Fail(t, e) == [est |-> est, seen |-> seen, bad |-> Chk(e.exc # "", "Rejected:" \o e.kind) \cup Chk(e.support => e.exc = "OutOfSupportError", "SupportError") \cup Chk(e.exc = "" \/ e.unfitted = "NotFittedError", "FailedFitLeavesUnfitted:" \o e.kind)]
Copy(t, e) ==
  LET s == est[e.from]  h == Copied(e.how, s.hist) IN
  IF e.exc # "" THEN [est |-> est @@ (e.id :> [s EXCEPT !.dead = TRUE]), seen |-> seen, bad |-> {"UnexpectedError:" \o e.how \o ":" \o e.exc}]
  ELSE [est |-> est @@ (e.id :> [s EXCEPT !.hist = h]), seen |-> seen,
        bad |-> IF Fitted(h) THEN Chk(Known(t, State(s, h), e.obs), "CopyEquals") ELSE Chk(e.unfitted = "NotFittedError", "CopyUnfitted")]

Do(t, e) ==
  CASE e.op = "begin" -> [est |-> Empty, seen |-> seen, bad |-> {}]
    [] e.op = "new" -> [est |-> est @@ (e.id :> [cfg |-> Cfg(e), hist |-> <<>>, dead |-> FALSE]), seen |-> seen,
                        bad |-> IF e.exc # "" THEN {"UnexpectedError:new:" \o e.exc} ELSE {}]
    [] e.op # "copy" /\ est[e.id].dead -> [est |-> est, seen |-> seen, bad |-> {}]
    [] e.op = "copy" /\ est[e.from].dead -> [est |-> est @@ (e.id :> est[e.from]), seen |-> seen, bad |-> {}]
    [] e.op = "call" -> Call(t, e) [] e.op = "read" -> Read(t, e) [] e.op = "reject" -> Reject(t, e) [] e.op = "fail" -> Fail(t, e) [] e.op = "copy" -> Copy(t, e)

Step == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
        /\ LET t == Traces[tid]  e == t.ev[l + 1]  r == TLCEval(Do(t, e)) IN
           est' = r.est /\ seen' = r.seen /\ bad' = r.bad \cup Quiet(e)
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == bad = {}
Report == ReportFor(tid, l, bad)
=============================================================================
