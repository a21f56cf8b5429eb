SPECIFICATION TableSpec
CONSTANTS SomeSignals <- McSignals
 Gaps = {30}
 MaxEpochs = 1
CHECK_DEADLOCK FALSE
