SPECIFICATION Spec
CONSTANTS
  MaxMsgs = 2
  Outside = {"x"}
  Fixed = TRUE
  defaultInitValue = defaultInitValue
INVARIANTS Once InOrder Replied AllAnswered
PROPERTIES Ends
