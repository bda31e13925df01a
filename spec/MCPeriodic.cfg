SPECIFICATION Spec
CONSTANTS Two = FALSE
          Durs = {0, 4}
          MaxTime = 4
          MaxOps = 2
          MaxAdds = 1
INVARIANTS FinalOnce Conserved FinalComplete NotStuck AllStopped ShutIsFinal ShutStops LoopBusy DeltaNeverNegative
CHECK_DEADLOCK FALSE
