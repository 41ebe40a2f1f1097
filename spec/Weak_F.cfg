INIT GInit
NEXT GNext
VIEW GView
ACTION_CONSTRAINT GLog
INVARIANTS Exact Closed
PROPERTIES Dead
CHECK_DEADLOCK FALSE
CONSTANTS
  Apply <- WApply
  Ops <- FOps
  InitStates <- FInit
  StartOf <- WStart
