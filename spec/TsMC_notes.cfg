SPECIFICATION Spec
INVARIANT Inv
PROPERTIES Outside Replaced Fills NeverLost NoneEmpty Merged Cut NoteStays
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  E = "1DAY"
  Day = 36524
  NS = 3
  Before0 = 1
  Vals = {"1", "M"}
  Flags = {0, 1, 4}
  Kinds = {"", "q", "i", "c", "qc"}
  MaxLen = 2
  Show = TRUE
