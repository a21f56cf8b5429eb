SPECIFICATION Spec
CONSTANTS SomeCfg <- McCfg
          SomeElem <- McElem
          MaxElems = 2
          LineTotal = 1000
INVARIANTS Faithful Prompt
CHECK_DEADLOCK FALSE
