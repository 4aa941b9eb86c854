SPECIFICATION Spec
INVARIANTS Budgets OncePerRound Progress MinRounds
PROPERTIES NeverWorse Terminates
CONSTRAINT Emit
