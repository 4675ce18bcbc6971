SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C01Bes
  Limit <- C01Limit
  Start <- C01Start
  GInit <- C01G
  Moves <- C01Moves
  GStep <- C01GStep
  Fine <- C01Fine
  AtEnd <- NoLast
