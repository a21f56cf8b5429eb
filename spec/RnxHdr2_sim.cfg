SPECIFICATION Spec
CONSTANTS SomeCfg <- SimCfg
 SomeItems <- SimItems
 SomeNote <- SimNote
 MaxNotes = 5
INVARIANTS Readable Faithful Columns
CHECK_DEADLOCK FALSE
