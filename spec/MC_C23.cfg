SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C23Bes
  Limit <- C23Limit
  Start <- C23Start
  GInit <- C23G
  Moves <- C23Moves
  GStep <- C23GStep
  Fine <- C23Fine
  AtEnd <- C23AtEnd
