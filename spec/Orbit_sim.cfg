SPECIFICATION Spec
CONSTANTS
  Circles <- NoCircles
CHECK_DEADLOCK FALSE
