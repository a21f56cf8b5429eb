SPECIFICATION Spec
CONSTANTS SomeEpoch <- SimEpoch
 Masks = {0,1,2,3,4,5,6,7}
 MaxEpochs = 10
 Some <- SomeRnd
INVARIANTS Undone SameShape Disjoint Sorted
CHECK_DEADLOCK FALSE
