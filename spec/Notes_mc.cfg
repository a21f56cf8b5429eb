SPECIFICATION Spec
CONSTANTS SomeKind <- McKind
 SomeHour <- McHour
 SomeNote <- McNote
 
 MaxEntries = 3
 MaxNotes = 2
INVARIANTS Faithful Conserved
CHECK_DEADLOCK FALSE
