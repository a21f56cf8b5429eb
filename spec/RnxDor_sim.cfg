SPECIFICATION Spec
CONSTANTS SomeCfg <- SimCfg
 SomeElem <- SimElem
 MaxElems = 8
 Some <- SomeRnd
INVARIANTS Faithful Columns Prompt Header
CHECK_DEADLOCK FALSE
