SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C20Bes
  Limit <- C20Limit
  Start <- C20Start
  GInit <- C20G
  Moves <- C20Moves
  GStep <- C20GStep
  Fine <- C20Fine
  AtEnd <- NoLast
