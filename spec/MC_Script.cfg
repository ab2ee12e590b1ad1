CONSTANT MaxC = 3
SPECIFICATION Spec
INVARIANT InOrder
INVARIANT Compositional
INVARIANT StopsAtFailure
INVARIANT Status
INVARIANT Emit
PROPERTY Still
CHECK_DEADLOCK FALSE
