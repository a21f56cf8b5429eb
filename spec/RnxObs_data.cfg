SPECIFICATION Spec
CONSTANTS SomeCfg <- DataCfg
          SomeElem <- DataElem
          MaxElems = 6
          LineTotal = 150
          Some <- SomeRnd
INVARIANTS Faithful Prompt
CHECK_DEADLOCK FALSE
