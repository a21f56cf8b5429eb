SPECIFICATION Spec
CONSTANTS SomeCfg <- McCfg
 SomeMsg <- McMsg
 MaxMsgs = 2
INVARIANTS Faithful Columns Prompt
CHECK_DEADLOCK FALSE
