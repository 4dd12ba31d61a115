SPECIFICATION Spec
INVARIANT Inv
PROPERTIES Outside Replaced Fills NeverLost NoneEmpty Merged Cut NoteStays
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  E = "IR-YEAR"
  Day = 36524
  NS = 4
  Before0 = 2
  Vals = {"1", "2", "M"}
  Flags = {0, 1}
  Kinds = {""}
  MaxLen = 3
  Show = TRUE
