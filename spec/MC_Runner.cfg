SPECIFICATION Spec
CONSTANT MaxS = 2
CONSTANT MaxV = 1
CONSTANT Kinds = {"plain", "failure", "always", "never", "detached", "ignored"}
CONSTANT MaxDeps = 2
INVARIANTS Sound Fit
PROPERTIES Policy
CHECK_DEADLOCK FALSE
