SPECIFICATION Spec
CONSTANTS SomeCfg <- McCfg
 SomeElem <- McElem
 MaxElems = 2
INVARIANTS Faithful Columns Prompt
CHECK_DEADLOCK FALSE
