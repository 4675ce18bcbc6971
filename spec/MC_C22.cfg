SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C22Bes
  Limit <- C22Limit
  Start <- C22Start
  GInit <- C22G
  Moves <- C22Moves
  GStep <- C22GStep
  Fine <- C22Fine
  AtEnd <- C22AtEnd
