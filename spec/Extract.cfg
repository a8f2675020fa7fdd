SPECIFICATION Spec
INVARIANTS RangesRight LibraryRight TextsRight FailsRight
CHECK_DEADLOCK FALSE
