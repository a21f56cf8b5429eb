SPECIFICATION Spec
CONSTANTS Chars = {"A", "b", " ", "0", "1", "7", "9", ".", "G", ">", "-"}
          MaxLen = 70
          MaxOps = 16
          SampleWeight = 4
          SomeText <- SimText
          Some <- SomeRnd
INVARIANTS Restores
CHECK_DEADLOCK FALSE
