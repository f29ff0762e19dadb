SPECIFICATION Spec
CONSTANTS NMsg = 2 FrameLen = 2 MaxFaults = 2 MaxTicks = 1 MaxConns = 3 BadMsg = 0
PROPERTIES Ends Flushed
CHECK_DEADLOCK FALSE
