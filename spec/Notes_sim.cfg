SPECIFICATION Spec
CONSTANTS SomeKind <- SimKind
 SomeHour <- SimHour
 SomeNote <- SimNote
 Some <- SomeRnd
 MaxEntries = 8
 MaxNotes = 8
INVARIANTS Faithful Conserved
CHECK_DEADLOCK FALSE
