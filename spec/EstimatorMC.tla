---------------------------- MODULE EstimatorMC ----------------------------
(***************************************************************************)
(* All call sequences up to length Depth on up to NObj estimators that     *)
(* share one settings object, over the alphabet Ops.  The design below is  *)
(* what the code is meant to do: an object has a marker n_observations_    *)
(* (has), statistics (stat) and its own copy of the method's working state *)
(* (own); a failing call may leave anything in stat but never the marker.  *)
(* Invariants: the objects represent the abstract histories, objects do    *)
(* not affect each other, the shared settings are never written.           *)
(***************************************************************************)
EXTENDS Estimator, Json
CONSTANTS Depth, NObj, Ops
VARIABLES obj, hist, shared, path
vars == <<obj, hist, shared, path>>

Ids == 1..NObj
None == [live |-> FALSE, has |-> FALSE, stat |-> <<>>, own |-> <<>>]
New == [None EXCEPT !.live = TRUE]
First == {1, 2}     \* batches to fit with
Later == {3, 4}     \* batches to update with
Garbage == <<9>>

Init == /\ obj = [i \in Ids |-> IF i = 1 \/ "share" \in Ops THEN New ELSE None]
        /\ hist = [i \in Ids |-> <<>>] /\ shared = 0 /\ path = <<>>

Log(e) == path' = Append(path, e)
ConcFit(o, b) == [o EXCEPT !.has = TRUE, !.stat = <<b>>, !.own = <<b>>]
ConcUpdate(o, b) == [o EXCEPT !.stat = Append(@, b), !.own = Append(@, b)]
Put(i, o, h, e) == obj' = [obj EXCEPT ![i] = o] /\ hist' = [hist EXCEPT ![i] = h] /\ shared' = shared /\ Log(e)

DoFit(i) == "fit" \in Ops /\ \E b \in First : Put(i, ConcFit(obj[i], b), Fit(hist[i], b), [op |-> "call", id |-> i, name |-> "fit", b |-> b])
DoUpdate(i) == "update" \in Ops /\ obj[i].has /\ \E b \in Later : Put(i, ConcUpdate(obj[i], b), Update(hist[i], b), [op |-> "call", id |-> i, name |-> "update", b |-> b])
DoPartial(i) == "partial" \in Ops /\ \E b \in (IF obj[i].has THEN {3} ELSE {1}) :
  Put(i, IF obj[i].has THEN ConcUpdate(obj[i], b) ELSE ConcFit(obj[i], b), Partial(hist[i], b), [op |-> "call", id |-> i, name |-> "partial", b |-> b])
DoRead(i) == "read" \in Ops /\ Put(i, obj[i], Unchanged(hist[i]), [op |-> "read", id |-> i])
DoReject(i) == "reject" \in Ops /\ obj[i].has /\ \E n \in {"update", "partial"} : Put(i, obj[i], Unchanged(hist[i]), [op |-> "reject", id |-> i, name |-> n])
DoFail(i) == "fail" \in Ops /\ ~obj[i].has /\ \E n \in {"fit", "partial"} : Put(i, [obj[i] EXCEPT !.stat = Garbage, !.own = Garbage], Unchanged(hist[i]), [op |-> "fail", id |-> i, name |-> n])
DoCopy(i) == \E j \in Ids, how \in Ops \cap {"pickle", "deepcopy", "clone"} :
  /\ ~obj[j].live /\ \A k \in Ids : k < j => obj[k].live
  /\ obj' = [obj EXCEPT ![j] = IF how = "clone" THEN New ELSE obj[i]]
  /\ hist' = [hist EXCEPT ![j] = Copied(how, hist[i])]
  /\ shared' = shared /\ Log([op |-> "copy", id |-> j, from |-> i, how |-> how])

Next == Len(path) < Depth /\ \E i \in Ids : obj[i].live /\ (DoFit(i) \/ DoUpdate(i) \/ DoPartial(i) \/ DoRead(i) \/ DoReject(i) \/ DoFail(i) \/ DoCopy(i))
Spec == Init /\ [][Next]_vars

Represents == \A i \in Ids : obj[i].has = Fitted(hist[i]) /\ (obj[i].has => obj[i].stat = hist[i] /\ obj[i].own = hist[i])
SharedUntouched == shared = 0
Isolated == [][\A i \in Ids : obj'[i] # obj[i] => path'[Len(path')].id = i]_vars
Emit == IF Len(path) = Depth THEN PrintT("SCN|" \o ToJson([path |-> path, hist |-> hist])) ELSE TRUE
=============================================================================
