SPECIFICATION Spec
CONSTANTS SomeCfg <- SimCfg
 SomeMsg <- SimMsg
 MaxMsgs = 7
 Some <- SomeRnd
INVARIANTS Faithful Columns Prompt
CHECK_DEADLOCK FALSE
