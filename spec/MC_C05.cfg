SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C05Bes
  Limit <- C05Limit
  Start <- C05Start
  GInit <- C05G
  Moves <- C05Moves
  GStep <- C05GStep
  Fine <- C05Fine
  AtEnd <- C05AtEnd
