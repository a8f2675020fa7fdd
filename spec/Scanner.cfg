SPECIFICATION Spec
INVARIANTS Satisfiable Rejected OutRight RevealRight
CHECK_DEADLOCK FALSE
