SPECIFICATION Spec
CONSTANT Ops = {"parse", "lint", "compile", "transform", "fmt", "encode", "json", "convert"}
CONSTANT MaxOps = 2
CONSTANT MaxOpen = 2
INVARIANTS Steady Alone Agreeing Emit
CHECK_DEADLOCK FALSE
