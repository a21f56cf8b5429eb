SPECIFICATION Spec
CONSTANTS SomeCfg <- SimCfg
          SomeElem <- SimElem
          MaxElems = 10
          LineTotal = 150
          Some <- SomeRnd
INVARIANTS Faithful Prompt
CHECK_DEADLOCK FALSE
