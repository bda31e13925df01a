SPECIFICATION Spec
CONSTANTS Writers = 2
          Script <- S1
          Tempos <- TD
          Rounds <- R4
          Agg = "sum"
          Filter = "none"
          ILim = 0
          VLim = 0
          Inact = 1
          Bug = "auxlate"
INVARIANTS EndOK Mapped RefCount Initialized Limits NoLostEntry Freed NoDeadlock
CHECK_DEADLOCK FALSE
