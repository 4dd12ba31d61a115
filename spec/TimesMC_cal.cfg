SPECIFICATION Spec
CONSTANTS
  FirstYear = 5
  LastYear = 410
  Es = {}
INVARIANT Closed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
