CONSTANTS N = 2  MaxSel = 2  MaxSend = 2
SPECIFICATION Spec
INVARIANT Delivers
CHECK_DEADLOCK FALSE
