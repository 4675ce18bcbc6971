SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C16Bes
  Limit <- C16Limit
  Start <- C16Start
  GInit <- C16G
  Moves <- C16Moves
  GStep <- C16GStep
  Fine <- C16Fine
  AtEnd <- C16AtEnd
