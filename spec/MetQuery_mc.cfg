SPECIFICATION Spec
CONSTANTS SomeVal <- McVal
 Times = {0, 60}
 Obs = {"RI", "HI"}
 MaxSamples = 3
INVARIANTS SameKeys SelfZero Parted
CHECK_DEADLOCK FALSE
