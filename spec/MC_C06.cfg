SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C06Bes
  Limit <- C06Limit
  Start <- C06Start
  GInit <- C06G
  Moves <- C06Moves
  GStep <- C06GStep
  Fine <- C06Fine
  AtEnd <- C06AtEnd
