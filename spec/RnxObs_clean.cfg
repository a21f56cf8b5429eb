SPECIFICATION Spec
CONSTANTS SomeCfg <- SimCfg
          SomeElem <- CleanElem
          MaxElems = 4
          LineTotal = 150
          Some <- SomeRnd
INVARIANTS Faithful Prompt
CHECK_DEADLOCK FALSE
