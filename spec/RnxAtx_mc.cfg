SPECIFICATION Spec
CONSTANTS SomeCfg <- McCfg
 SomeElem <- McElem
 SomeQuery <- McQuery
 MaxElems = 2
INVARIANTS Faithful Answers Prompt
CHECK_DEADLOCK FALSE
