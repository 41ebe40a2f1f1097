INIT GInit
NEXT GNext
VIEW GView
ACTION_CONSTRAINT GLog
CONSTRAINT SmallBound
INVARIANTS Tree ByteFiles Positions
PROPERTIES FailKeeps Reads AppendsOnly
CHECK_DEADLOCK FALSE
CONSTANTS
  Apply <- FApply
  Ops <- SmallOps
  InitStates <- SmallInit
  StartOf <- FStart
