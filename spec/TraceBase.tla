----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* What all trace specifications share.  A trace is a record with a key,   *)
(* a configuration and a sequence ev of events recorded from the           *)
(* implementation.  A trace specification is a state machine with the      *)
(* variables tid (which trace), l (events consumed), bad (the clauses the  *)
(* last event violates) and its own specification state.  Every event is   *)
(* consumed; Accepted is the property.  The configurations use Report as a *)
(* constraint that is always true, so that TLC lists every rejected event  *)
(* instead of stopping at the first.                                       *)
(***************************************************************************)
EXTENDS LinAlg, FiniteSets

Traces == LoadTraces("$trace")

ReportFor(tid, l, bad) ==
  \A c \in bad : PrintT("BAD|" \o ToString(tid) \o "|" \o ToString(l) \o "|" \o c)

\* the clause name in a singleton unless the condition holds
Chk(cond, name) == IF cond THEN {} ELSE {name}
Has(r, f) == f \in DOMAIN r
Range(f) == { f[i] : i \in DOMAIN f }

T(k) == RTen(-k)   \* the tolerance 10^-k
=============================================================================
