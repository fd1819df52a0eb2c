SPECIFICATION Spec
INVARIANT Equivalence
PROPERTIES Independent CopyEqual
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
