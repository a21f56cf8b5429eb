SPECIFICATION Spec
CONSTANTS Chars = {"A", "b", " "}
          MaxLen = 2
          MaxOps = 4
          SampleWeight = 1
          SomeText <- McText
INVARIANTS Restores
CHECK_DEADLOCK FALSE
