INIT EInit
NEXT ENext
INVARIANTS Canonical CallBound Negation EqualRefl EDone
PROPERTIES Keeps
CHECK_DEADLOCK FALSE
CONSTANTS
  Apply <- MApply
  Ops <- NoOps
  InitStates <- NoInit
  StartOf <- MStart
