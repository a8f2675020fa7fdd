SPECIFICATION Spec
INVARIANT NoMatch
INVARIANT BothFind
INVARIANT SameBytes
INVARIANT Decided
CHECK_DEADLOCK FALSE
