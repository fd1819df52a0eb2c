SPECIFICATION Spec
CONSTANT MaxOps = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
