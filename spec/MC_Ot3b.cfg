CONSTANTS N = 3  MaxSel = 1  MaxSend = 2
SPECIFICATION Spec
INVARIANT Delivers
CHECK_DEADLOCK FALSE
