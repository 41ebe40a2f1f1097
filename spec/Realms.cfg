INIT EInit
NEXT ENext
INVARIANTS EDone
PROPERTIES Isolated Pure
CHECK_DEADLOCK FALSE
CONSTANTS
  Apply <- RApply
  Ops <- NoOps
  InitStates <- NoInit
  StartOf <- GStart
