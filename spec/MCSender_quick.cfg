SPECIFICATION SafeSpec
CONSTANTS NMsg = 2 FrameLen = 2 MaxFaults = 2 MaxTicks = 2 MaxConns = 3 BadMsg = 0
INVARIANTS WireOk ExactlyOnce NoLoss Fifo Refused EndOk ErrOrder Published
PROPERTIES NothingAfterEnd
CHECK_DEADLOCK FALSE
