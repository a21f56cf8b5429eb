SPECIFICATION Spec
CONSTANTS SomeCfg <- SimCfg
 SomeItems <- SimItems
 SomeNote <- SimNote
 SomeUnrelated <- SimUnrelated
 MaxNotes = 6
INVARIANTS Readable Faithful Columns
CHECK_DEADLOCK FALSE
