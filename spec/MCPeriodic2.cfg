SPECIFICATION Spec
CONSTANTS Two = TRUE
          Durs = {0, 3}
          MaxTime = 4
          MaxOps = 2
          MaxAdds = 1
INVARIANTS FinalOnce Conserved FinalComplete NotStuck AllStopped ShutIsFinal ShutStops LoopBusy DeltaNeverNegative
CHECK_DEADLOCK FALSE
