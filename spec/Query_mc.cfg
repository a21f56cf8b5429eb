SPECIFICATION Spec
CONSTANTS SomeEpoch <- McEpoch
 Masks = {1,6}
 MaxEpochs = 2
INVARIANTS Undone SameShape Disjoint Sorted
CHECK_DEADLOCK FALSE
