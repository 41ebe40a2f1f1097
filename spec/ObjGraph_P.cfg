INIT GInit
NEXT GNext
VIEW GView
ACTION_CONSTRAINT GLog
INVARIANTS ArraysOk KeysOk NoCycle
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
CONSTANTS
  Apply <- OApply
  Ops <- POps
  InitStates <- PInit
  StartOf <- Heap
