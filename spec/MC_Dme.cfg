SPECIFICATION Spec
INVARIANT Opens
CHECK_DEADLOCK FALSE
