CONSTANT MaxC = 2
SPECIFICATION Spec
INVARIANT Acyclic
INVARIANT Closed
INVARIANT Unique
INVARIANT Topological
INVARIANT Emit
PROPERTY Prefixed
CHECK_DEADLOCK FALSE
