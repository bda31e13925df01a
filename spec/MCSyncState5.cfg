SPECIFICATION Spec
CONSTANTS Writers = 2
          Script <- S1
          Tempos <- TC
          Rounds <- R3
          Agg = "gauge"
          Filter = "all"
          ILim = 0
          VLim = 0
          Inact = 1
          Bug = "none"
INVARIANTS EndOK Mapped RefCount Initialized Limits NoLostEntry Freed NoDeadlock
CHECK_DEADLOCK FALSE
