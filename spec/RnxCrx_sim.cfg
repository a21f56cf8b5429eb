SPECIFICATION Spec
CONSTANTS SomeCfg <- CrxCfg
          SomeElem <- CrxElem
          SomeChoice <- CrxChoice
          MaxElems = 7
          Some <- SomeRnd
INVARIANTS Compliant Lossless SameMemory Prompt
CHECK_DEADLOCK FALSE
