INIT GInit
NEXT GNext
VIEW GView
ACTION_CONSTRAINT GLog
INVARIANTS Exact Closed
PROPERTIES Dead
CHECK_DEADLOCK FALSE
CONSTANTS
  Apply <- WApply
  Ops <- SOps
  InitStates <- SInit
  StartOf <- WStart
