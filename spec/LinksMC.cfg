SPECIFICATION Spec
INVARIANTS RoundTrip InverseDerivative LinkDerivative SecondDerivative Increasing
