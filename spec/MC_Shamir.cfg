SPECIFICATION Spec
INVARIANTS Correct CoeffsRight
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
