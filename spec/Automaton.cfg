SPECIFICATION Spec
VIEW View
INVARIANTS NothingBad AcceptAgrees BoundariesAgree
CHECK_DEADLOCK FALSE
