SPECIFICATION TraceSpec
CONSTANTS Handles = {1, 2, 3, 4}
          Problems = {1, 2, 3, 4}
INVARIANTS Accepted InfeasibleSound UnbndOrInfeasSound Equivalent PostPrimal PostDual
CHECK_DEADLOCK FALSE
