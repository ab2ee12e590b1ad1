SPECIFICATION Spec
CONSTANT Focus = "order"
CONSTANT MaxS = 2
CONSTANT MaxV = 1
INVARIANTS Fits Order Detached Deps AfterClone Privilege CloneUnprivileged Socket Apart Settings_ OneWorkspace Mounted Aliased Emit
CHECK_DEADLOCK FALSE
