SPECIFICATION Spec
CONSTANTS MaxLen = 4
CHECK_DEADLOCK FALSE
