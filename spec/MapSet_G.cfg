INIT GInit
NEXT GNext
VIEW GView
ACTION_CONSTRAINT GLog
INVARIANTS KeysDistinct IterInRange
PROPERTIES OrderStable DoneStays
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys = {1, 2, 3}
  Vals = {1, 2}
  NIter = 2
  Apply <- MSApply
  Ops <- MSOps
  InitStates <- MSInit
  StartOf <- MSStart
