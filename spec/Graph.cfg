SPECIFICATION Spec
INVARIANT Types
CHECK_DEADLOCK FALSE
