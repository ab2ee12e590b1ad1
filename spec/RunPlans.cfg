SPECIFICATION Spec
INVARIANTS Judged
CHECK_DEADLOCK FALSE
