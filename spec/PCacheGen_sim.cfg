SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Docs <- DocsDef
 Texts <- TextsMore
 MaxOps = 8
 MaxDel = 3
 Works = {0, 1, 2, 9}
