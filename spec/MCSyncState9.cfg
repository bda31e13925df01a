SPECIFICATION Spec
CONSTANTS Writers = 2
          Script <- S2
          Tempos <- TDD
          Rounds <- R22
          Agg = "sum"
          Filter = "all"
          ILim = 0
          VLim = 0
          Inact = 2
          Bug = "none"
INVARIANTS EndOK Mapped RefCount Initialized Limits NoLostEntry Freed NoDeadlock
CHECK_DEADLOCK FALSE
