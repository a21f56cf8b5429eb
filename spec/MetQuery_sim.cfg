SPECIFICATION Spec
CONSTANTS SomeVal <- SimVal
 Times = {0, 60, 120, 300, 600}
 Obs <- AllObs
 MaxSamples = 40
 Some <- SomeRnd
INVARIANTS SameKeys SelfZero Parted
CHECK_DEADLOCK FALSE
