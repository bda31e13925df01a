SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS At ShutIsFinal ShutStops LoopBusy DeltaNeverNegative
