SPECIFICATION Spec
CONSTRAINT Report
