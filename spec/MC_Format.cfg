SPECIFICATION Spec
CONSTANT MaxForms = 2
CONSTANT Pairs = FALSE
INVARIANTS Accepted Confluent Fixpoint Only Emit
CHECK_DEADLOCK FALSE
