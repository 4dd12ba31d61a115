SPECIFICATION Spec
CONSTANTS
  Recs = {"ts", "pd"}
  Vdis = {"none", "n88", "n88b", "n29", "loc"}
  Curs = {"UNSET", "NAVD-88", "NGVD-29", "LOCAL"}
  Owns = {TRUE, FALSE}
  Show = TRUE
ACTION_CONSTRAINT Emit
INVARIANTS RoundTrip NativeTrip
PROPERTIES Guarded Refused
CHECK_DEADLOCK FALSE
