SPECIFICATION Spec
CONSTANTS
  NewMessages <- SmallMessages
  NewInstants <- SmallInstants
  MaxMessages = 2
  Unit = 1800
INVARIANTS Sound NotLate Latest Found Others
PROPERTIES Superseded
CHECK_DEADLOCK FALSE
