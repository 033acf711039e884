SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Docs <- DocsDef
 Texts <- TextsDef
 MaxOps = 3
 MaxDel = 2
 Works = {0, 1, 2}
