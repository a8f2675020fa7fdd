SPECIFICATION Spec
INVARIANTS EndsCleanly WellFormed
CHECK_DEADLOCK FALSE
