SPECIFICATION Spec
CONSTANTS SomeCfg <- SimCfg
 SomeElem <- SimElem
 MaxElems = 9
 Some <- SomeRnd
INVARIANTS Faithful Columns Tight
CHECK_DEADLOCK FALSE
