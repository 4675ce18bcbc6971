SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C10Bes
  Limit <- C10Limit
  Start <- C10Start
  GInit <- C10G
  Moves <- C10Moves
  GStep <- C10GStep
  Fine <- C10Fine
  AtEnd <- NoLast
