SPECIFICATION Spec
INVARIANTS Satisfiable OutRight RevealRight
CHECK_DEADLOCK FALSE
