SPECIFICATION Spec
INVARIANTS FixedIsStationary StationaryIsFixed Arrives WeightedMean
CHECK_DEADLOCK FALSE
