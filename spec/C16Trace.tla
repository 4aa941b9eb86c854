------------------------------ MODULE C16Trace ------------------------------
(***************************************************************************)
(* Conformance of the link classes.  One event is one call with an array;  *)
(* args and out are flat, scalar is the result of the calls element by     *)
(* element.                                                                *)
(***************************************************************************)
EXTENDS TraceBase, Links
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = {}

Want(t, op, a) == CASE op = "link" -> Link(t.kind, t.v, a)
                    [] op = "inverse" -> LinkInv(t.kind, t.v, a)
                    [] op = "inverse_derivative" -> LinkInvD(t.kind, t.v, a)
                    [] op = "link_derivative" -> LinkD(t.kind, t.v, a)
                    [] op = "link_second_derivative" -> LinkDD(t.kind, t.v, a)

\* the documented robust limits: what may saturate or lose digits
Floor == RTen(-8)
Top == RTen(14)
InReach(t, op, a) ==
  IF op \in {"inverse", "inverse_derivative"}
  THEN CASE t.kind \in {"log", "logit"} -> RLeq(a, RLog(Top))
         [] t.kind = "softplus" -> op = "inverse" \/ RLeq(RInt(-34), a)
         [] OTHER -> TRUE
  ELSE LET z == RSub(a, t.v) IN
       CASE t.kind = "identity" -> TRUE
         [] t.kind = "logit" -> RLeq(Floor, a) /\ RLeq(Floor, RSub(1, a))
         [] t.kind = "softplus" -> RLeq(IF op = "link_second_derivative" THEN RTen(-3) ELSE RTen(-6), z)
         [] t.kind \in {"log", "sqrt"} /\ ~t.shifted -> RLeq(Floor, z)
         [] t.kind \in {"log", "sqrt"} -> RLeq(RTen(-3), z)
         [] OTHER -> RLeq(Floor, z)
\* the shifted links add 1e-10 inside; subtraction of the shift costs digits
Tol(t, op, a) ==
  LET z == RAbs(RSub(a, t.v)) IN
  IF op \in {"inverse", "inverse_derivative"} THEN RTen(-11)
  ELSE CASE t.kind = "softplus" -> RAdd(RTen(-9), RDiv(RMul(RTen(-15), RAdd(1, RAbs(t.v))), RMul(z, z)))
         [] t.kind \in {"log", "sqrt"} /\ t.shifted -> RAdd(RTen(-9), RDiv(RMul(RTen(-9), 1), z))
         [] t.kind = "logit" -> RTen(-7)
         [] OTHER -> RTen(-10)

AbsTol(t, op, a) ==
  RMul(RAdd(1, RAbs(t.v)), IF op = "link" /\ ~(t.kind \in {"identity", "logit"}) THEN RMul(RTen(-9), RAdd(1, RDiv(1, RAbs(RSub(a, t.v))))) ELSE RTen(-13))

Judge(t, e) ==
  IF Len(e.out) # Len(e.args) THEN {"Shape"}
  ELSE (IF \A i \in DOMAIN e.args : InReach(t, e.op, e.args[i]) =>
              RClose(e.out[i], Want(t, e.op, e.args[i]), Tol(t, e.op, e.args[i]), AbsTol(t, e.op, e.args[i]))
        THEN {} ELSE {"Value:" \o e.op})
  \cup Chk(e.shape, "Shape")
  \cup Chk(VClose(e.out, e.scalar, RTen(-12), RTen(-300)), "Elementwise")
  \cup (IF e.op \in {"link", "inverse"}
        THEN Chk(\A i \in 1..(Len(e.args) - 1) : RLeq(e.out[i], e.out[i + 1]), "Monotone")
             \cup Chk(\A i \in 1..(Len(e.args) - 1) :
                  (InReach(t, e.op, e.args[i + 1]) /\ InReach(t, e.op, e.args[i]) /\
                   RLt(RAdd(Want(t, e.op, e.args[i]), RMul(RTen(-9), RAdd(1, RAbs(Want(t, e.op, e.args[i]))))), Want(t, e.op, e.args[i + 1])))
                    => RLt(e.out[i], e.out[i + 1]), "StrictlyIncreasing")
        ELSE {})
  \cup (IF e.op = "inverse"
        THEN Chk(\A i \in DOMAIN e.out : RIsFinite(e.out[i]) /\ RLeq(t.lo, e.out[i]) /\ RLeq(e.out[i], t.hi), "Range") ELSE {})

Step == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
        /\ LET t == Traces[tid]  e == t.ev[l + 1] IN
           bad' = TLCEval(IF e.exc # "" THEN {"UnexpectedError:" \o e.exc}
                          ELSE IF e.op = "roundtrip" THEN
                            Chk(\A i \in DOMAIN e.args : InReach(t, "link", e.args[i]) => RClose(e.out[i], e.args[i], RTen(-7), RTen(-9)), "RoundTrip")
                          ELSE IF e.op = "roundtrip2" THEN
                            Chk(\A i \in DOMAIN e.args : RClose(e.out[i], e.args[i], RTen(-6), RTen(-6)), "RoundTrip")
                          ELSE Judge(t, e))
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == bad = {}
Report == ReportFor(tid, l, bad)
=============================================================================
