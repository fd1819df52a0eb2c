SPECIFICATION Spec
CONSTANTS L = 6
 Q = 1
 Sessions = 1
INVARIANTS Correct OneKey Above Progress ReachOk
CHECK_DEADLOCK FALSE
