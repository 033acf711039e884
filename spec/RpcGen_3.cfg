SPECIFICATION Spec
CONSTANTS MaxLen = 3
CHECK_DEADLOCK FALSE
