SPECIFICATION Spec
CONSTANTS SomeCfg <- SimCfg
 SomeElem <- SimElem
 SomeQuery <- SimQuery
 MaxElems = 5
 Some <- SomeRnd
INVARIANTS Faithful Answers Prompt
CHECK_DEADLOCK FALSE
