SPECIFICATION Spec
INVARIANT Sound
INVARIANT Exact
INVARIANT AcceptSound
INVARIANT AcceptExact
CHECK_DEADLOCK FALSE
