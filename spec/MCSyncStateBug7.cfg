SPECIFICATION Spec
CONSTANTS Writers = 3
          Script <- S4
          Tempos <- TD
          Rounds <- R2
          Agg = "sum"
          Filter = "all"
          ILim = 2
          VLim = 0
          Inact = 1
          Bug = "limit"
INVARIANTS EndOK Mapped RefCount Initialized Limits NoLostEntry Freed NoDeadlock
CHECK_DEADLOCK FALSE
