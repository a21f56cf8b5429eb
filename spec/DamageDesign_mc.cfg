SPECIFICATION Spec
CONSTANT MaxLines = 6
INVARIANT SafeIsWhole
PROPERTY FirstAccident
CHECK_DEADLOCK FALSE
