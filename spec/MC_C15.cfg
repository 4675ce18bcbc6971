SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C15Bes
  Limit <- C15Limit
  Start <- C15Start
  GInit <- C15G
  Moves <- C15Moves
  GStep <- C15GStep
  Fine <- C15Fine
  AtEnd <- C15AtEnd
