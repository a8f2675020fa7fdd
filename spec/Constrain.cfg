SPECIFICATION Spec
INVARIANTS WellFormed AllFixed Interface Tied
CHECK_DEADLOCK FALSE
