CONSTANT MaxR = 3
SPECIFICATION Spec
INVARIANT Backwards
INVARIANT Unique
INVARIANT Platforms
INVARIANT Interleaved
INVARIANT Emit
PROPERTY Prefixed
CHECK_DEADLOCK FALSE
