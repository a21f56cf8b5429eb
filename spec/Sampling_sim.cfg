SPECIFICATION Spec
CONSTANTS Ticks <- SimTicks
          MaxEpochs = 24
          Units = {1, 2, 3, 4, 5}
          Bases = {1, 2, 3, 4, 5}
          Kinds = {"obs", "meteo", "clock", "ionex", "nav"}
          Tolerances <- SimTol
          Some <- SomeRnd
INVARIANTS Consistent Tiling Extremes
CHECK_DEADLOCK FALSE
