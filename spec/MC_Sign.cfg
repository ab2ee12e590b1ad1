CONSTANT MaxOps = 3
SPECIFICATION Spec
INVARIANT Authentic
INVARIANT OneKey
INVARIANT Stable
INVARIANT Emit
PROPERTY Tamper
CHECK_DEADLOCK FALSE
