SPECIFICATION Spec
CONSTANTS
  Mix = TRUE
  Rows = 2
  Cols = 2
  Show = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Inv
PROPERTIES Untouched Others TypeStays Copied Moved
CHECK_DEADLOCK FALSE
