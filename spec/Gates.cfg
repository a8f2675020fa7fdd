SPECIFICATION Spec
INVARIANTS BitsOnly Satisfied OutRight Meaning
CHECK_DEADLOCK FALSE
