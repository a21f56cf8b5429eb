SPECIFICATION Spec
CONSTANTS SomeSet <- SimSet
 SomeRecord <- SimRecord
 MaxOps = 12
 Slots = {1,2,3,4}
 Some <- SomeRnd
INVARIANTS Kept Formed Stored
CHECK_DEADLOCK FALSE
