INIT EInit
NEXT ENext
INVARIANTS Consistent Next1 EDone
CHECK_DEADLOCK FALSE
CONSTANTS
  Apply <- DApply
  Ops <- NoOps
  InitStates <- NoInit
  StartOf <- DStart
