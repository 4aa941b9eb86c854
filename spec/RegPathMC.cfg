SPECIFICATION Spec
INVARIANTS InBox Falls LargestPenalty FirstRowEmpty Frozen
CONSTRAINT Emit
