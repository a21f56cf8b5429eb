SPECIFICATION Spec
CONSTANTS Capacities = {1, 2, 3, 4, 5, 6}
          MaxOrder = 6
          SomeValue <- SimValue
          SampleWeight = 5
          MaxOps = 24
          Scales = {1, 7, 1000, 1000003}
          Some <- SomeRnd
INVARIANTS Inverse Bounded
CHECK_DEADLOCK FALSE
