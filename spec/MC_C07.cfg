SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C07Bes
  Limit <- C07Limit
  Start <- C07Start
  GInit <- C07G
  Moves <- C07Moves
  GStep <- C07GStep
  Fine <- C07Fine
  AtEnd <- NoLast
