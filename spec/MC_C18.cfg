SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C18Bes
  Limit <- C18Limit
  Start <- C18Start
  GInit <- C18G
  Moves <- C18Moves
  GStep <- C18GStep
  Fine <- C18Fine
  AtEnd <- C18AtEnd
