SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C08Bes
  Limit <- C08Limit
  Start <- C08Start
  GInit <- C08G
  Moves <- C08Moves
  GStep <- C08GStep
  Fine <- C08Fine
  AtEnd <- NoLast
