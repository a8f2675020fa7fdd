SPECIFICATION Spec
INVARIANTS OutRight RevealRight
CHECK_DEADLOCK FALSE
