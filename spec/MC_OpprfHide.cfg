SPECIFICATION Spec
CONSTANTS L = 2
 Q = 3
 Sessions = 2
INVARIANTS Correct OneKey Above Progress ReachOk
CHECK_DEADLOCK FALSE
