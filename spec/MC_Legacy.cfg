SPECIFICATION Spec
CONSTANT MaxSteps = 2
INVARIANTS OnePerAxis StepsOK NoClone Replaced TriggerOK TagsOK Deploy Emit
CHECK_DEADLOCK FALSE
