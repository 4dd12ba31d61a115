CONSTANTS
 Rnames = {"a", "b"}
 Anames = {"x"}
 Contents = {1}
 Types = {1}
 MaxVer = 2
 Ops = {"put", "del", "undel", "ren", "dup", "aadd", "arem", "aremall", "squeeze"}
 Show = TRUE
SPECIFICATION Spec
VIEW View
INVARIANT Inv
PROPERTIES Isolation SqueezeKeeps AliasStays Refused ReadWrite UndelRestores
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
