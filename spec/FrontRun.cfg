SPECIFICATION Spec
INVARIANTS NoPanic StatusRight ErrorsTold FilesRight ReturnRight
CHECK_DEADLOCK FALSE
