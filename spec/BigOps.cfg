INIT EInit
NEXT ENext
INVARIANTS Laws EDone
CHECK_DEADLOCK FALSE
CONSTANTS
  Apply <- BApply
  Ops <- NoOps
  InitStates <- NoInit
  StartOf <- NoStart
