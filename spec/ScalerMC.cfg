SPECIFICATION Spec
INVARIANTS MeanIsMean VarIsVar TotalIsTotal RoundTrip
CONSTRAINT Emit
