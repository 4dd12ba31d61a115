SPECIFICATION Spec
INVARIANT Inv
PROPERTIES Outside Replaced Fills NeverLost NoneEmpty Merged Cut NoteStays
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  E = "IR-YEAR"
  Day = 36524
  NS = 3
  Before0 = 2
  Vals = {"1"}
  Flags = {0, 1}
  Kinds = {"", "q", "i", "c", "qc"}
  MaxLen = 2
  Show = TRUE
