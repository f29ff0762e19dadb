SPECIFICATION SafeSpec
CONSTANTS NMsg = 3 FrameLen = 2 MaxFaults = 2 MaxTicks = 1 MaxConns = 3 BadMsg = 0
INVARIANTS WireOk ExactlyOnce NoLoss Fifo Refused EndOk ErrOrder Published
PROPERTIES NothingAfterEnd
CHECK_DEADLOCK FALSE
