SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C03Bes
  Limit <- C03Limit
  Start <- C03Start
  GInit <- C03G
  Moves <- C03Moves
  GStep <- C03GStep
  Fine <- C03Fine
  AtEnd <- NoLast
