SPECIFICATION Spec
CONSTANTS L = 3
 Q = 2
 Sessions = 2
INVARIANTS Correct OneKey Above Progress ReachOk
CHECK_DEADLOCK FALSE
