SPECIFICATION Spec
CONSTANTS
  P = 7
INVARIANTS Canonical Laws
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
