SPECIFICATION Spec
CONSTANTS SomeCfg <- CrxCfg
          SomeElem <- DataElems
          SomeChoice <- CrxChoice
          MaxElems = 9
          Some <- SomeRnd
INVARIANTS Compliant Lossless SameMemory
CHECK_DEADLOCK FALSE
