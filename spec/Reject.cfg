SPECIFICATION Spec
INVARIANT RefusalJustified
CHECK_DEADLOCK FALSE
