SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C12Bes
  Limit <- C12Limit
  Start <- C12Start
  GInit <- C12G
  Moves <- C12Moves
  GStep <- C12GStep
  Fine <- C12Fine
  AtEnd <- C12AtEnd
