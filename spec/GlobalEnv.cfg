INIT EInit
NEXT ENext
INVARIANTS Disjoint NoLeak EDone
PROPERTIES Atomic
CHECK_DEADLOCK FALSE
CONSTANTS
  Apply <- GApply
  Ops <- NoOps
  InitStates <- NoInit
  StartOf <- GStart
