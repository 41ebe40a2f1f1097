INIT EInit
NEXT ENext
INVARIANTS Ordered Lengths Trip EDone
CHECK_DEADLOCK FALSE
CONSTANTS
  Apply <- JApply
  Ops <- NoOps
  InitStates <- NoInit
  StartOf <- JStart
