SPECIFICATION Spec
INVARIANTS Satisfiable OutRight
CHECK_DEADLOCK FALSE
