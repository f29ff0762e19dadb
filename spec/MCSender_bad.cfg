SPECIFICATION SafeSpec
CONSTANTS NMsg = 3 FrameLen = 2 MaxFaults = 1 MaxTicks = 1 MaxConns = 3 BadMsg = 2
INVARIANTS WireOk ExactlyOnce NoLoss Fifo Refused EndOk ErrOrder Published
PROPERTIES NothingAfterEnd
CHECK_DEADLOCK FALSE
