SPECIFICATION Spec
INVARIANTS LineRight Deterministic Connected Files SubsRight
CHECK_DEADLOCK FALSE
