SPECIFICATION Spec
CONSTANTS Writers = 2
          Script <- S1
          Tempos <- TD
          Rounds <- R3
          Agg = "sum"
          Filter = "all"
          ILim = 0
          VLim = 2
          Inact = 1
          Bug = "none"
INVARIANTS EndOK Mapped RefCount Initialized Limits NoLostEntry Freed NoDeadlock
CHECK_DEADLOCK FALSE
