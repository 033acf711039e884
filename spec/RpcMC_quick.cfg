SPECIFICATION Spec
CONSTANTS
  MaxMsgs = 1
  Outside = {"x"}
  Fixed = TRUE
  defaultInitValue = defaultInitValue
INVARIANTS Once InOrder Replied AllAnswered
PROPERTIES Ends
