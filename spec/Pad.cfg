SPECIFICATION Spec
INVARIANTS TypeOK Padded Refused
CHECK_DEADLOCK FALSE
