SPECIFICATION Spec
INVARIANTS Monotone DensityIsDerivative TotalMass MeanIsFirstMoment ScoreIsCentred
