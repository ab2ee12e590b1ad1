SPECIFICATION Spec
CONSTANT MaxOps = 3
INVARIANTS Honest Once Emit
PROPERTIES OnlySaves ChangedSays
CHECK_DEADLOCK FALSE
