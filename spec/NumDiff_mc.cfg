SPECIFICATION Spec
CONSTANTS Capacities = {1, 3, 6}
          MaxOrder = 6
          SomeValue <- McValue
          SampleWeight = 1
          MaxOps = 4
          Scales = {1}
INVARIANTS Inverse Bounded
CHECK_DEADLOCK FALSE
