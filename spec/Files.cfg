INIT EInit
NEXT ENext
INVARIANTS Tree ByteFiles Positions EDone
PROPERTIES FailKeeps Reads AppendsOnly
CHECK_DEADLOCK FALSE
CONSTANTS
  Apply <- FApply
  Ops <- NoOps
  InitStates <- NoInit
  StartOf <- FStart
