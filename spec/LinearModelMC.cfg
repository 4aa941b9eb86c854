SPECIFICATION Spec
INVARIANTS OnlineIsBatch NormalEquations WeightsAreRepetitions
CONSTRAINT Emit
