SPECIFICATION Spec
CONSTANTS Nets = {"tcp", "tcp4", "tcp6", "unix", "unixgram", "local", "stdio", "udp", "none"}
  Classes = {"ip4", "ip6", "all", "local", "used", "foreign", "noport", "badport", "bigport", "negport", "junk", "brackets", "path", "empty", "free", "file", "infile", "dir", "nodir", "longpath", "staleunix", "stalegram", "peer4", "peer6", "peerunix", "peergram", "refused", "stdout:"}
INVARIANTS TypeOk Guess Dialed Families
CHECK_DEADLOCK FALSE
