SPECIFICATION Spec
INVARIANTS Accepted Judged
CHECK_DEADLOCK FALSE
