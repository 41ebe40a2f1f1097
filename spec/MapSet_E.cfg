INIT EInit
NEXT ENext
INVARIANTS KeysDistinct IterInRange EDone
PROPERTIES OrderStable DoneStays
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys = {1, 2, 3}
  Vals = {1, 2}
  NIter = 4
  Apply <- MSApply
  Ops <- MSOps
  InitStates <- MSInit
  StartOf <- MSStart
