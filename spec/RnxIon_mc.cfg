SPECIFICATION Spec
CONSTANTS SomeCfg <- McCfg
 SomeElem <- McElem
 MaxElems = 3
INVARIANTS Faithful Columns Tight
CHECK_DEADLOCK FALSE
