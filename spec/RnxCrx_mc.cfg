SPECIFICATION Spec
CONSTANTS SomeCfg <- McCfg
          SomeElem <- McElem
          SomeChoice <- McChoice
          MaxElems = 2
INVARIANTS Compliant Lossless SameMemory Prompt
CHECK_DEADLOCK FALSE
