CONSTANT MaxD = 2
SPECIFICATION Spec
INVARIANT AllOrNothing
INVARIANT InOrder
INVARIANT Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
