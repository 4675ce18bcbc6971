SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Bes <- C02Bes
  Limit <- C02Limit
  Start <- C02Start
  GInit <- C02G
  Moves <- C02Moves
  GStep <- C02GStep
  Fine <- C02Fine
  AtEnd <- NoLast
