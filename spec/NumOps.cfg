INIT EInit
NEXT ENext
INVARIANTS Rng EDone
CHECK_DEADLOCK FALSE
CONSTANTS
  Apply <- NApply
  Ops <- NoOps
  InitStates <- NoInit
  StartOf <- NoStart
