SPECIFICATION Spec
CONSTANTS SomeWorld <- McWorld
 SomeGiven <- McGiven
 SomeCustom <- McCustom
 MaxRounds = 2
INVARIANTS Faithful Stable Shape
CHECK_DEADLOCK FALSE
