SPECIFICATION Spec
INVARIANTS Resolved
PROPERTIES OnlyNamed
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
