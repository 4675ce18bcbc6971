SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C04Bes
  Limit <- C04Limit
  Start <- C04Start
  GInit <- C04G
  Moves <- C04Moves
  GStep <- C04GStep
  Fine <- C04Fine
  AtEnd <- C04AtEnd
