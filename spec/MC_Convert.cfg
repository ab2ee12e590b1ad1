SPECIFICATION Spec
CONSTANT MaxLines = 2
INVARIANTS Foreign OneLine Emit
PROPERTY Stays
CHECK_DEADLOCK FALSE
