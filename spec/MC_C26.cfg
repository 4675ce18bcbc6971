SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C26Bes
  Limit <- C26Limit
  Start <- C26Start
  GInit <- C26G
  Moves <- C26Moves
  GStep <- C26GStep
  Fine <- C26Fine
  AtEnd <- C26AtEnd
