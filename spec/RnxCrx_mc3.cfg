SPECIFICATION Spec
CONSTANTS SomeCfg <- Mc3Cfg
          SomeElem <- Mc3Elem
          SomeChoice <- Mc3Choice
          MaxElems = 3
INVARIANTS Compliant Lossless SameMemory
CHECK_DEADLOCK FALSE
