INIT EInit
NEXT ENext
INVARIANTS Exact Closed EDone
PROPERTIES Dead Once
CHECK_DEADLOCK FALSE
CONSTANTS
  Apply <- WApply
  Ops <- NoOps
  InitStates <- NoInit
  StartOf <- WStart
