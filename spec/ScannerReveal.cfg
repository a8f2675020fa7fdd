SPECIFICATION Spec
INVARIANTS Satisfiable RevealRight
CHECK_DEADLOCK FALSE
