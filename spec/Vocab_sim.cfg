SPECIFICATION Spec
CONSTANTS Words <- NoWords
 Offsets <- SimOffsets
 Gaps = {1, 5, 30, 60, 900, 3600, 86400}
 ClockSteps = 12
 Some <- SomeRnd
INVARIANTS Telescopes
CHECK_DEADLOCK FALSE
