SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C24Bes
  Limit <- C24Limit
  Start <- C24Start
  GInit <- C24G
  Moves <- C24Moves
  GStep <- C24GStep
  Fine <- C24Fine
  AtEnd <- C24AtEnd
