INIT EInit
NEXT ENext
INVARIANTS Units EDone
PROPERTIES Immutable
CHECK_DEADLOCK FALSE
CONSTANTS
  Apply <- SApply
  Ops <- NoOps
  InitStates <- NoInit
  StartOf <- SStart
