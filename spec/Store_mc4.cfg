SPECIFICATION Spec
CONSTANTS SomeSet <- McSet
 SomeRecord <- McRecord
 MaxOps = 4
 Slots = {1,3}
INVARIANTS Kept Formed Stored
PROPERTIES Untouched OnlySaves
CHECK_DEADLOCK FALSE
