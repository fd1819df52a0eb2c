CONSTANTS N = 3  MaxSel = 2  MaxSend = 1
SPECIFICATION Spec
INVARIANT Delivers
CHECK_DEADLOCK FALSE
