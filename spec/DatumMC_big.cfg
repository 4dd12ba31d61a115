SPECIFICATION Spec
CONSTANTS
  Recs = {"ts", "pd"}
  Vdis = {"none", "n88", "n88m", "n88b", "n88e", "n88x", "n29", "loc", "loc2"}
  Curs = {"UNSET", "NAVD-88", "NGVD-29", "LOCAL"}
  Owns = {TRUE, FALSE}
  Show = TRUE
VIEW Abst
ACTION_CONSTRAINT Emit
INVARIANTS RoundTrip NativeTrip
PROPERTIES Guarded Refused
CHECK_DEADLOCK FALSE
