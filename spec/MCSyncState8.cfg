SPECIFICATION Spec
CONSTANTS Writers = 2
          Script <- S1
          Tempos <- TDC
          Rounds <- R22
          Agg = "sum"
          Filter = "none"
          ILim = 0
          VLim = 0
          Inact = 1
          Bug = "none"
INVARIANTS EndOK Mapped RefCount Initialized Limits NoLostEntry Freed NoDeadlock
CHECK_DEADLOCK FALSE
