SPECIFICATION Spec
CONSTANTS SomeSignals <- SimSignals
 Gaps = {30, 30, 15, 90}
 MaxEpochs = 5
 Some <- SomeRnd
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
