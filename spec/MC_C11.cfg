SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C11Bes
  Limit <- C11Limit
  Start <- C11Start
  GInit <- C11G
  Moves <- C11Moves
  GStep <- C11GStep
  Fine <- C11Fine
  AtEnd <- C11AtEnd
