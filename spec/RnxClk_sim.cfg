SPECIFICATION Spec
CONSTANTS SomeCfg <- SimCfg
 SomeElem <- SimElem
 MaxElems = 14
 Some <- SomeRnd
INVARIANTS Faithful Columns Prompt
CHECK_DEADLOCK FALSE
