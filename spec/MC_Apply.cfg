SPECIFICATION Spec
CONSTANT MaxH = 2
CONSTANT Filters = TRUE
INVARIANTS FiltersOnlyDisable Idempotent Frame AskOnly Texts Emit
CHECK_DEADLOCK FALSE
