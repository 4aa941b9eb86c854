SPECIFICATION Spec
INVARIANTS Bounded SweepLimit FixpointIsOptimal
PROPERTIES Descent Terminates
