INIT EInit
NEXT ENext
INVARIANTS RegistryFunction SiteFunction EDone
PROPERTIES Stable
CHECK_DEADLOCK FALSE
CONSTANTS
  Apply <- SApply
  Ops <- NoOps
  InitStates <- NoInit
  StartOf <- GStart
