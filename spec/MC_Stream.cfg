CONSTANT MaxLen = 4
SPECIFICATION Spec
INVARIANT Agrees
INVARIANT Conserve
INVARIANT Count
INVARIANT Emit
PROPERTY Frozen
PROPERTY Monotone
CHECK_DEADLOCK FALSE
