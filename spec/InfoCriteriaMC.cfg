SPECIFICATION Spec
INVARIANTS SplitFree SomeChosen ChosenIsBest ShiftFree MaxIsSmallestError FewerParameters
CONSTRAINT Emit
