SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C14Bes
  Limit <- C14Limit
  Start <- C14Start
  GInit <- C14G
  Moves <- C14Moves
  GStep <- C14GStep
  Fine <- C14Fine
  AtEnd <- C14AtEnd
