SPECIFICATION GSpec
CONSTANTS NMsg = 5 FrameLen = 3 MaxFaults = 5 MaxTicks = 5 MaxConns = 7 BadMsg = 4
INVARIANTS Out
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
