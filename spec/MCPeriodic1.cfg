SPECIFICATION Spec
CONSTANTS Two = FALSE
          Durs = {0, 2, 4}
          MaxTime = 6
          MaxOps = 2
          MaxAdds = 1
INVARIANTS FinalOnce Conserved FinalComplete NotStuck AllStopped UrgentPossible ShutIsFinal ShutStops LoopBusy DeltaNeverNegative
CHECK_DEADLOCK FALSE
