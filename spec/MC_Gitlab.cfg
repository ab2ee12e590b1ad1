SPECIFICATION Spec
CONSTANT Jobs_ = {"a", "b", "C"}
CONSTANT Scripts = {{"script"}, {"before_script", "script"}, {"script", "after_script", "before_script"}}
INVARIANTS Ordered Once End NeverStuck All Emit
CHECK_DEADLOCK FALSE
