SPECIFICATION Spec
CONSTANTS L = 4
 Q = 2
 Sessions = 1
INVARIANTS Correct OneKey Above Progress ReachOk
CHECK_DEADLOCK FALSE
