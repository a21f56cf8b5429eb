SPECIFICATION Spec
CONSTANTS Ticks <- McTicks
          MaxEpochs = 4
          Units = {1, 2}
          Bases = {1}
          Kinds = {"obs"}
          Tolerances <- McTol
INVARIANTS Consistent Tiling Extremes
CHECK_DEADLOCK FALSE
