INIT EInit
NEXT ENext
INVARIANTS InBounds SplitLen EDone
PROPERTIES LastIndex
CHECK_DEADLOCK FALSE
CONSTANTS
  Apply <- RApply
  Ops <- NoOps
  InitStates <- NoInit
  StartOf <- RStart
