SPECIFICATION Spec
INVARIANTS MeanIsDiscountedMean LengthIsSum BelowAsymptote
CONSTRAINT Emit
