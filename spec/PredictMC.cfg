SPECIFICATION Spec
INVARIANTS NoInfluence Influence AddUp InRange OrderedColumns
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
