SPECIFICATION Spec
CONSTANTS Words <- McWords
 Offsets <- McOffsets
 Gaps = {1, 30}
 ClockSteps = 3
INVARIANTS Telescopes
CHECK_DEADLOCK FALSE
