SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C21Bes
  Limit <- C21Limit
  Start <- C21Start
  GInit <- C21G
  Moves <- C21Moves
  GStep <- C21GStep
  Fine <- C21Fine
  AtEnd <- C21AtEnd
