SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C13Bes
  Limit <- C13Limit
  Start <- C13Start
  GInit <- C13G
  Moves <- C13Moves
  GStep <- C13GStep
  Fine <- C13Fine
  AtEnd <- C13AtEnd
