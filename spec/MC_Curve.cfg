SPECIFICATION Spec
INVARIANTS AllValid GroupLaws CompressLaws
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
