SPECIFICATION Spec
CONSTANTS
  MaxMsgs = 2
  Outside = {"x"}
  Fixed = FALSE
  defaultInitValue = defaultInitValue
INVARIANTS Once InOrder Replied AllAnswered
PROPERTIES Ends
