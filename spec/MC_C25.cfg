SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C25Bes
  Limit <- C25Limit
  Start <- C25Start
  GInit <- C25G
  Moves <- C25Moves
  GStep <- C25GStep
  Fine <- C25Fine
  AtEnd <- C25AtEnd
