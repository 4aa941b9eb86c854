SPECIFICATION Spec
INVARIANTS Represents SharedUntouched
PROPERTIES Isolated
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
