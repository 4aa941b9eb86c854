SPECIFICATION Spec
INVARIANTS GramIsSum CrossIsSum InverseIsInverse
CONSTRAINT Emit
