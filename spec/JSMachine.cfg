INIT Init
NEXT Next
VIEW View
INVARIANTS EnvsExist OneActivation RunningOnStack Emit
CHECK_DEADLOCK FALSE
