SPECIFICATION Spec
CONSTANTS
  FirstYear = 2003
  LastYear = 2004
  Es = {"15MINUTE", "1HOUR", "12HOUR", "1DAY", "1WEEK", "TRI-MONTH", "SEMI-MONTH", "1MONTH", "1YEAR"}
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
