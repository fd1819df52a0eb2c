SPECIFICATION Spec
INVARIANTS Correct Binding
CHECK_DEADLOCK FALSE
