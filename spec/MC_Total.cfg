SPECIFICATION Spec
INVARIANT NullFits
INVARIANT NullPlan
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANT MaxHoles = 1
CONSTANT Holes = {"null", "text", "empty", "int", "list", "map", "[null]", "[[]]", "[{}]", "[text]", "{null}", "{text}", "{[null]}", "{{}}", "{map}", "gone"}
CONSTANT Names = {"pipeline", "cron", "secret", "registry", "signature", "legacy", "include", "gitlab", "bitbucket"}
