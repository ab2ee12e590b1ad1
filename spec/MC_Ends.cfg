SPECIFICATION Spec
CONSTANT MaxS = 2
CONSTANT MaxV = 1
CONSTANT Kinds = {"plain", "failure"}
CONSTANT MaxDeps = 1
INVARIANTS Sound Fit
PROPERTIES Policy Ends
CHECK_DEADLOCK FALSE
