SPECIFICATION Spec
CONSTANTS
  NewMessages <- RndMessages
  NewInstants <- RndInstants
  MaxMessages = 14
  Unit = 1800
INVARIANTS Sound NotLate Latest Found Others
CHECK_DEADLOCK FALSE
