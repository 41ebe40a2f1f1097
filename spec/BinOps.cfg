INIT EInit
NEXT ENext
INVARIANTS Inside Trip EDone
CHECK_DEADLOCK FALSE
CONSTANTS
  Apply <- BApply
  Ops <- NoOps
  InitStates <- NoInit
  StartOf <- BStart
