SPECIFICATION Spec
CONSTANT MaxValues = 3
CONSTANT Caps = TRUE
INVARIANTS Same CountOK Once IncludeWins Emit
CHECK_DEADLOCK FALSE
