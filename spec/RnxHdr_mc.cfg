SPECIFICATION Spec
CONSTANTS SomeCfg <- McCfg
 SomeItems <- McItems
 SomeNote <- McNote
 SomeUnrelated <- McUnrelated
 MaxNotes = 1
INVARIANTS Readable Faithful Columns
PROPERTY Grows
CHECK_DEADLOCK FALSE
