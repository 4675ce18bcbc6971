SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C09Bes
  Limit <- C09Limit
  Start <- C09Start
  GInit <- C09G
  Moves <- C09Moves
  GStep <- C09GStep
  Fine <- C09Fine
  AtEnd <- C09AtEnd
