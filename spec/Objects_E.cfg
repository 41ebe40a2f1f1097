INIT EInit
NEXT ENext
INVARIANTS ArraysOk KeysOk NoCycle EDone
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
CONSTANTS
  Apply <- OApply
  Ops <- NoOps
  InitStates <- NoInit
  StartOf <- Heap
