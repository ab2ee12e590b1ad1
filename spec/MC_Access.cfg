SPECIFICATION Spec
CONSTANT MaxVols = 2
CONSTANT MaxC = 1
INVARIANTS Sound Contained Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
