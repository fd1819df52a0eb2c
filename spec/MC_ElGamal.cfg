SPECIFICATION Spec
INVARIANT Recovered
CHECK_DEADLOCK FALSE
