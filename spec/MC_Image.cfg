SPECIFICATION Spec
INVARIANT Normal
INVARIANT Kept
INVARIANT Unchanged
INVARIANT OneHost
INVARIANT Emit
CHECK_DEADLOCK FALSE
