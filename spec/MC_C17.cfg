SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C17Bes
  Limit <- C17Limit
  Start <- C17Start
  GInit <- C17G
  Moves <- C17Moves
  GStep <- C17GStep
  Fine <- C17Fine
  AtEnd <- C17AtEnd
