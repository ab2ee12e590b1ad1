SPECIFICATION Spec
CONSTANT MaxTags = 2
CONSTANT MaxBranches = 2
INVARIANTS TagFirst BranchNext Chosen_ Default Emit
CHECK_DEADLOCK FALSE
