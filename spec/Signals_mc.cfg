SPECIFICATION Spec
CONSTANTS SomeSignals <- McSignals
 Gaps = {30, 90}
 MaxEpochs = 2
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
