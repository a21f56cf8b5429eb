SPECIFICATION Spec
CONSTANTS SomeWorld <- SimWorld
 SomeGiven <- SimGiven
 SomeCustom <- SimCustom
 MaxRounds = 2
INVARIANTS Faithful Stable Shape
CHECK_DEADLOCK FALSE
