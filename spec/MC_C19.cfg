SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C19Bes
  Limit <- C19Limit
  Start <- C19Start
  GInit <- C19G
  Moves <- C19Moves
  GStep <- C19GStep
  Fine <- C19Fine
  AtEnd <- C19AtEnd
