#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Sent messages are written exactly once, whole and in order",
  "While connecting and writing succeed, every message accepted by a Sender before End is called is written to the connection exactly once, as one complete frame of the chosen transport. If one Send returned before another Send was called, the first message is written before the second. This holds for any number of goroutines and any interleaving of Send calls, flush ticks and End.",
  ["schedules", "histories"], "All interleavings of concurrent Send calls with ticks, running flushes and End; any number of messages per flush.",
  "Tests use one producer goroutine, identical messages and a single flush pattern; loss, duplication or reordering under concurrent producers is invisible to them.",
  ["connector.go"], [("queue under lock, single flushing goroutine", "connector.go: Send, flushQueue, runQueue")],
  [("queue", "frames accepted and not yet written", "connector.go Sender.queue"), ("output", "current connection", "connector.go Sender.output")],
  ["Send call/return", "Write on the connection given by the Connector"])
p("C02", "A failed connection loses, repeats and garbles nothing",
  "When connecting or writing fails, even in the middle of a message, the Sender keeps every message that was not completely written, closes and abandons the failed connection, and resumes on a new connection with the interrupted message sent again from its first byte. No message is lost or reordered, no completely written message is written again, and every connection carries whole frames from its first byte on (only its very last frame may be cut by a failure). A no-buffer-space (ENOBUFS) condition is not a failure: the connection is kept and writing later continues exactly where it stopped.",
  ["fault_sequences", "histories", "crash_points"], "Every sequence of connect failures, write failures after any number of bytes, ENOBUFS conditions, sends and ticks.",
  "No test makes a connection fail: the reconnect, requeue and ENOBUFS paths are never executed.",
  ["connector.go"], [("drop connection and keep queue on error", "connector.go: flushQueue"), ("net.Buffers consumes what was written", "connector.go: flushQueue")],
  [("queue", "frames accepted and not yet written", "connector.go Sender.queue"), ("output", "current connection or nil", "connector.go Sender.output")],
  ["Connect results", "Write arguments and results", "Close"])
p("C03", "End flushes everything, then closes the connection, and always works",
  "End returns only after every message accepted before it was called has been completely written (retrying over new connections if some fail), and every opened connection has been closed; the error channel is closed too, so that its readers end. Nothing is connected or written after End returned. It works in every state of the Sender: nothing ever sent, never connected, connection just lost, flush in progress, messages being sent concurrently. It never crashes the program and returns as soon as delivery has become possible.",
  ["schedules", "fault_sequences", "histories"], "Every state in which End can be called: idle, never connected, mid-flush, after failures, with concurrent Sends.",
  "Tests call End once, after successful sends; the never-connected and failing states are not reached.",
  ["connector.go"], [("drain loop and close in runQueue's deferred function", "connector.go: runQueue"), ("endAsked/endCompleted handshake", "connector.go: End")],
  [("endAsked/endCompleted", "termination handshake", "connector.go Sender")], ["End return", "Close", "error channel close"])
p("C04", "Connection errors are reported but never block logging",
  "Failed connection attempts and failed writes are published on the Sender's error channel, in order of occurrence and each at most once; a failure that occurs when no earlier error is waiting to be read is always published. Publishing never blocks: even if nobody ever reads the error channel, Send calls return, later ticks still attempt delivery, and End returns once the messages can be delivered.",
  ["fault_sequences", "schedules"], "Every sequence of failures with any (or no) consumer of the error channel.",
  "No test produces an error; all tests that look at the error channel abort on the first one.",
  ["connector.go"], [("errChan buffered channel", "connector.go: NewSender, flushQueue")], [("errChan", "errors not yet read", "connector.go Sender.errChan")],
  ["error channel", "Send return", "End return"])
p("C05", "Received messages do not depend on how the stream is cut or on sizes",
  "For each of the three transports, the messages received from a connection are exactly the messages whose frames were put on it: the same bytes, in the same order, once each. This does not depend on how the byte stream is cut into reads, on the number of messages, or on their sizes, from the smallest message to messages larger than the receive buffer. A message is delivered as soon as its frame is complete, without waiting for bytes of the following one.",
  ["inputs", "histories"], "Every list of well-formed messages (with and without structured data, empty text, text containing ']' or quotes), every chunking of the stream, each transport.",
  "The tests send one fixed 80-byte message; boundaries inside a header, messages near or above the buffer size, structured data and empty text over a transport are never received.",
  ["listener.go", "message-immutable.go", "transport.go"], [("tokenize buffer management", "listener.go: tokenize"), ("framing", "transport.go: PrefixStrip/SuffixStrip"), ("Parse", "message-immutable.go: Parse")],
  [("buffer/done", "bytes read and not yet consumed", "listener.go tokenize")], ["Read results of the connection", "Receive results"])
p("C06", "No input from a peer can crash, stall or desynchronise a receiver",
  "Whatever bytes a peer sends, the receiver neither crashes nor hangs. Each complete frame that is not a well-formed message yields exactly one error result, in its place in the order, and the frames after it are received normally. When the framing itself cannot be recovered (an RFC 5425 header that is not a length) exactly one error result is delivered for it and that connection is closed, while all messages before it and all other connections are unaffected.",
  ["inputs"], "All byte streams: malformed headers, structured data, lengths (negative, overflowing, non numeric), empty frames, mixed with valid frames, under every chunking.",
  "The tests only feed valid messages.",
  ["listener.go", "message-immutable.go", "transport.go"], [("header length validation", "transport.go: tRFC5425.PrefixStrip"), ("per frame parse errors", "message-immutable.go: Parse"), ("error pair on the pipeline", "listener.go: tokenize")],
  [], ["Receive results", "Close of the connection"])
p("C07", "The end of a connection loses nothing and is handled once",
  "When a peer closes its connection or reading from it fails, every message completely received before is delivered, the connection is closed, and nothing more is read from it; a read failure (other than end of stream) is reported on the receiver's error channel exactly once (as long as fewer than ten errors are waiting to be read). A last frame without its end is not dropped silently: with the NUL transport it is delivered as a normal message, with the LF and RFC 5425 transports it is delivered with an incomplete-message error (for RFC 5425, when even the length is cut, with some error).",
  ["fault_sequences", "inputs"], "Every point of the stream at which the peer can close or reset, for each transport, including data returned together with the error.",
  "No test ends a connection in mid-frame or with an error.",
  ["listener.go", "transport.go"], [("eof handling", "listener.go: tokenize"), ("atEOF rules", "transport.go")], [("eof", "end of stream seen", "listener.go tokenize")],
  ["Receive results", "error channel", "Close of the connection"])
p("C08", "Concurrent connections are received independently and completely",
  "Messages of any number of concurrent connections are each received exactly once and, for each connection, in its order; several goroutines may call Receive. What a received message contains never changes afterwards, whatever is received later. A failed Accept is reported on the error channel (as long as fewer than ten errors are waiting to be read) and does not prevent later connections from being served.",
  ["schedules", "histories", "fault_sequences"], "All interleavings of several connections' reads with Receive calls and Accept failures, any queue length.",
  "Tests use a single connection and compare each message immediately.",
  ["listener.go"], [("one tokenizer goroutine per connection, shared pipeline", "listener.go: runQueue, tokenize"), ("buffers never rewritten below the read position", "listener.go: tokenize")],
  [("pipeline", "messages not yet received", "listener.go Receiver.pipeline")], ["Receive results"])
p("C09", "Ending a receiver is orderly",
  "After End, the receiver stops accepting connections (a connection whose accepting was already pending may still be served) and closes its listener; messages of the connections it had accepted are still delivered, and once those connections are finished Receive reports that the receiver is ended. At no point does ending a receiver crash the program, block End, or make Receive return something that was not sent.",
  ["schedules", "histories"], "Every relative order of End, pending and later connections, deliveries, Receive calls and connection ends.",
  "Tests call End as their last action and exit.",
  ["listener.go"], [("end channel, pipeline close", "listener.go: runQueue, End")], [("end", "end requested", "listener.go Receiver.end"), ("pipeline", "closed at the end", "listener.go Receiver.pipeline")],
  ["Receive third result", "listener Close"])
p("C10", "Parsing is total and decomposes exactly the well-formed messages",
  "Parsing a byte string with any transport never crashes; it yields a message exactly when the string (or its first complete frame) is six non-empty fields each followed by one space and then '-' or a list of structured data elements, optionally followed by a space and a text, and otherwise an error. (An element extends from '[' to the first ']' outside double quotes; inside double quotes a backslash makes any next byte plain and a bare ']' is not allowed; its content is not empty, does not begin with a space, and either has no space, '=' or quote, or ends with a closing quote.) While a first frame is not complete and more data may come, parsing yields no message, no error and no remainder; when it is complete, the remainder is exactly the bytes after that frame. The accessors of an accepted message return exactly its fields (cut and cleaned as the fields of written messages are) and its text.",
  ["inputs"], "All byte strings, with each transport and without, at end of data or not.",
  "The tests parse ten valid messages without a transport.",
  ["message-immutable.go", "transport.go"], [("Parse", "message-immutable.go"), ("PrefixStrip/SuffixStrip", "transport.go")],
  [("index/text", "field boundaries", "message-immutable.go MessageImmutable")], ["Parse results", "accessor results"])
p("C11", "Every encoded message has a well-formed header",
  "Whatever strings are given for host, application, process id and message id, the encoded message is '<PRI>1', a timestamp, these four fields, the structured data and, if the text is not empty, the text, separated by single spaces. Each of the four fields is non-empty printable ASCII without spaces, at most 255, 48, 128 and 32 bytes long: an empty string becomes '-', longer ones are cut, and every other byte is replaced by '%' one for one. The text is the given text without its trailing white space.",
  ["inputs"], "All strings for each field and text, set in any order through any constructor or setter.",
  "The tests encode three messages with literal, valid fields.",
  ["message.go", "helpers.go"], [("validators", "helpers.go"), ("Marshal5424", "message.go")], [], ["Marshal5424 result"])
p("C12", "Messages are values: deriving never alters another message",
  "Deriving a message from another one (setting any field, adding structured data, changing the text) never changes the encoding of the original nor of any other message derived from it, whatever the order of derivations. The encoding of a message depends only on the operations that produced it.",
  ["histories"], "Every tree of derivations, with shared structured data lists of any length.",
  "The tests never derive two messages from one and look at both.",
  ["message.go", "sdata/list.go"], [("value receivers", "message.go"), ("List.Add", "sdata/list.go")], [("sd", "list of structured data, shared between copies", "message.go Message.sd")], ["Marshal5424 result of every live message"])
p("C13", "Encoding then parsing gives back the same message",
  "For a message with a priority of 0..191, a year of 0..9999 and well-formed structured data elements, parsing its encoding gives the same priority, timestamp (to the microsecond), host, application, process id, message id, structured data and text. Converting the parsed message back to a writable message and encoding it again gives the identical bytes.",
  ["inputs"], "All such messages: timestamps with any offset in minutes, any fields, lists of structured data elements, texts of arbitrary bytes.",
  "The round trip is tested on ten literals and never with text containing brackets after structured data, or elements without parameters.",
  ["message.go", "message-immutable.go", "sdata/sd-unknown.go"], [("Marshal5424", "message.go"), ("Parse and accessors", "message-immutable.go")], [], ["Parse(Marshal5424(m))"])
p("C14", "A Syslog emits exactly the severities it was configured for",
  "For every minimum priority given to New, a message logged on a channel of severity s is emitted if and only if s is at least as severe as the minimum, with priority exactly facility|s where facility is that of the minimum priority. Channels of lesser severity are /dev/null channels, as are all channels derived from them, and channels of sufficient severity are not. This is the same for every syslog derived with SubSyslog and for any number of goroutines obtaining their channels at the same time.",
  ["inputs", "schedules", "configurations"], "All facilities, minimum severities, requested priorities, and concurrent first uses.",
  "Tests use LogDAEMON|LogWARNING and channels from a single goroutine.",
  ["syslog.go", "channel.go", "priority.go"], [("lazy channel table", "syslog.go: Channel"), ("devnull", "channel.go")], [("channels", "channel per severity", "syslog.go Syslog.channels")], ["frames written by the Sender", "IsDevNull"])
p("C15", "Derived channels carry their own identity and discard nothing",
  "A message logged on a channel carries the host name and process id of its Syslog, the application name made of the names of the Syslog, its SubSyslog ancestors and AppName derivations joined by '/' ('-' standing for no name), and the last message id set ('-' if none), each cut and cleaned as message fields are. Deriving a channel or a SubSyslog never changes its parent or siblings. Everything logged on a channel derived from a live channel, through Log, Write or a Logger, is emitted once, with its whole text (without trailing white space) and its structured data.",
  ["histories", "inputs"], "Every tree of SubSyslog/AppName/Msgid derivations in any order, with any names, and every way to log.",
  "One example derives one SubSyslog with a short valid name.",
  ["channel.go", "syslog.go", "helpers.go"], [("AppName/Msgid", "channel.go"), ("SubSyslog", "syslog.go")], [("appname/msgid", "identity of the channel", "channel.go msgChannel")], ["frames written by the Sender"])
p("C16", "Structured data values cannot break out of their element",
  "A structured data element made from a map or a struct is encoded as '[', its id, one ' name=\"value\"' per entry (map entries sorted by name, struct fields in order, one per item of a list; struct fields that are empty strings, nil or empty lists are left out) and ']', where '\"', '\\' and ']' of a value are escaped by '\\' and nothing else is changed. For every value, reading the element back gives exactly one element with the same id, names and (unescaped) values. Encoding a value of an unsupported type gives an error and never crashes the program.",
  ["inputs"], "All values (arbitrary bytes), valid names, maps, structs, lists, pointers, interfaces.",
  "The tests encode three literals, one with a ']' in it.",
  ["sdata/structured-data-encoder.go", "sdata/tokens.go", "sdata/sd-unknown.go", "sdata/sd-generic.go"], [("PrefixedWrite", "sdata/structured-data-encoder.go"), ("NextSDValue", "sdata/tokens.go")], [], ["Marshal5424 of the element", "sdata.Parse"])
p("C17", "timeQuality is encoded and decoded only in its valid combinations",
  "A timeQuality element is encoded exactly when it is valid (isSynced requires tzKnown, syncAccuracy requires isSynced), with exactly the parameters that are true or present; any accuracy value is allowed. Decoding accepts an element as timeQuality exactly when it has that id, only the three known parameters with values 0/1, 0/1 and an integer, and forms a valid combination, and then yields these values. Decoding what was encoded gives the same value, and neither direction ever crashes.",
  ["inputs"], "All values of the three parameters, all element texts.",
  "The tests list some thirty literals; accuracy 0 or negative and short elements are not among them.",
  ["sdata/timequality/tq.go"], [("IsValid", "sdata/timequality/tq.go"), ("Found", "sdata/timequality/tq.go"), ("Marshal5424", "sdata/timequality/tq.go")], [], ["Marshal5424", "Found"])
p("C18", "No structured data element of a message is lost when it is read",
  "The structured data read from an accepted message has one item for each well-formed element, in order (what becomes of elements with malformed parameters is left open). An element recognised by a registered decoder is decoded by it, any other one is kept as an unknown element whose encoding is the original text. The first decoder registered under a name is kept, and registering and parsing may happen concurrently.",
  ["inputs", "histories", "schedules"], "All lists of elements, all sets and orders of registered decoders, concurrent use.",
  "The tests register one decoder at start and look at lists of at most two elements.",
  ["sdata/list.go", "sdata/sd-unknown.go", "message-immutable.go"], [("registry", "sdata/list.go"), ("unknown fallback", "sdata/sd-unknown.go"), ("element boundaries", "message-immutable.go")], [("sdids", "registered decoders", "sdata/list.go registry")], ["StructuredData()", "sdata.Parse"])
p("C19", "Priorities have one textual and one wire form",
  "For every priority 0..191 the wire form is '<n>1' with n in decimal without leading zeros, and decoding it gives the same priority; decoding accepts exactly '<', one to three digits, '>1' and leaves the priority unchanged otherwise. The text form of every named priority is 'facility.severity' and setting a priority from a text succeeds exactly for the defined names, giving their codes and otherwise leaving it unchanged. Printing never crashes, for any decoded priority.",
  ["inputs"], "All priorities, all strings.",
  "Encoding is tested exhaustively, but decoding, the name tables and printing only on two values.",
  ["priority.go"], [("Marshal5424/Unmarshal5424", "priority.go"), ("Set/String", "priority.go")], [("facility, severity", "name tables", "priority.go")], ["Marshal5424", "Unmarshal5424", "Set", "String"])
p("C20", "Listening on a socket path never destroys anything but a stale socket",
  "Creating a unix or unixgram listener succeeds when nothing exists at the path or when a socket left behind by an ended process is there, which is then replaced. If anything that is not a socket is there (a file, a directory, a symbolic link, whatever it leads to), or if the socket cannot be removed, creation fails with an error, in bounded time, and leaves it untouched. A created listener is usable at once. (What happens to a socket that another process still listens on is left open.)",
  ["configurations", "histories"], "Every kind of object at the path, for both listener types, and sequences of listening and closing on the same path.",
  "Tests only listen on fresh paths.",
  ["listener-unix.go", "listener-unixdgram.go"], [("remove and listen again", "listener-unix.go: UnixListener"), ("remove and listen again", "listener-unixdgram.go: UnixgramListener")], [], ["result of the constructor", "object at the path"])
p("C21", "Dialing honours network, transport, datagram and flush settings",
  "Dial uses NUL framing for local, unix and unixgram and LF framing for stdio and tcp networks unless a transport is given, which is then used; unknown networks are refused at once. Each message to a unixgram peer is one datagram. A host with several addresses is reached at any of them, of the network's family, that accepts. With a FlushDelay above one millisecond messages go out without End within a small multiple of that delay, otherwise only at End, and a destination that is unreachable or does not exist produces errors on the error channel, never a crash.",
  ["configurations", "inputs"], "Every network name, with and without transport and delay, reachable and unreachable destinations.",
  "Tests cover stdio, unix, unixgram and tcp with one or two transports and always with a reachable peer.",
  ["dialer.go", "connector-local.go", "connector-tcp.go", "connector-fd.go"], [("network switch", "dialer.go: Dial"), ("unixgram wrapper", "connector-local.go"), ("TCP address selection", "connector-tcp.go")], [], ["bytes and datagrams at the peer", "Dial result", "error channel"])
p("C22", "Messages sent through real sockets arrive intact, once and in order",
  "Messages logged through a dialed Sender and received by a receiver listening at that address arrive intact, exactly once and in each sender's order, over unix, unixgram and tcp sockets with each transport, for any number of senders, message sizes (up to the system's limit for a datagram) and bursts. A sender that starts before its listener exists, or, over unix and unixgram sockets, whose listener's process is restarted while nothing is in flight, delivers its messages once the listener is there.",
  ["configurations", "schedules", "histories", "fault_sequences"], "All pairs of network and transport, several concurrent senders, bursts, sizes, late and restarted listeners.",
  "TestBurst sends one identical 80-byte message per connection from one sender and cannot see loss, duplication or reordering.",
  ["connector.go", "connector-local.go", "connector-tcp.go", "listener.go", "listener-tcp.go", "listener-unix.go", "listener-unixdgram.go"], [("Sender and Receiver composed", "connector.go, listener.go"), ("unixgram reader", "listener-unixdgram.go: fakeConn.Read")], [], ["Send", "Receive"])
p("C23", "Timestamps designate the instant they were given",
  "A message stamped with Epoch, Delta or Timestamp, or made by Now, Time or CreateWholeMessage, carries the instant these denote: Epoch the decimal seconds and nanoseconds given (also when they are negative or nanoseconds exceed one second), Delta the boot time plus the elapsed time, Time and CreateWholeMessage the time given, Timestamp the month, day and time given in the current year (in the previous one for a stamp of December received in January), Now the current time; the time given and the boot time are told with their own offset from UTC when it has whole minutes; for all instants of the years 0 to 9999, whatever else is derived from the message.",
  ["inputs"], "All seconds and nanoseconds, boot times in every zone, stamps of every day (29 February excepted) and times of day, current times of every date.",
  "The tests use two fixed instants and none of Epoch, Delta or Timestamp.",
  ["message.go"], [("Epoch, Delta, Timestamp", "message.go"), ("Now", "message.go")], [], ["Marshal5424 result"])
p("C24", "The readers of structured data tokens are total and exact",
  "The exported readers NextHeader, NextNonSpace, NextSDName and NextSDValue never crash on any bytes, nor change them: each gives either an error and no remainder, or its token and exactly the bytes that follow it. NextHeader takes what precedes the first space (all of it when there is none), NextNonSpace skips one or more spaces that something follows, NextSDName takes what precedes '=', NextSDValue what is between a quote and the next one that isn't escaped (a backslash escapes the byte after it), as written. Applied in turn to the inside of a well-formed element they give its id, its names and its values, and every value. They refuse an id or a name with a control character (DEL too), ']' or a quote in it, an id with '=' in it or none at all, a name with a space in it, a value without its opening or closing quote or with an unescaped ']'. (Empty names, names that fewer than 4 bytes contain and bytes above 127 in names are left open.)",
  ["inputs"], "All byte strings, alone and as parts of elements.",
  "The tests read a handful of elements through the decoder and never call a reader with anything malformed.",
  ["sdata/tokens.go"], [("NextHeader, NextNonSpace, NextSDName, NextSDValue", "sdata/tokens.go")], [], ["results of the readers"])
p("C25", "What is made works, and what cannot be made is refused without side effect",
  "Constructors and connectors give either something that works or an error, never both nor neither, and the same again when asked again. GuessListener and TCPListener refuse a network that isn't theirs and an address that isn't one of a TCP port of that network's family on this machine, or that is in use; GuessListener, UnixListener and UnixgramListener a path where no socket can be. A TCPConnector or LocalConnector without a peer of its network (a unixgram socket isn't a unix one) at its address, a StdioConnector of anything but stdout: and stderr:, and an InvalidConnector (its zero value too) give an error at each Connect. GuessListener on tcp, tcp4, tcp6, unix and unixgram gives the same as that network's constructor. Dial refuses an unknown network at once, NewReceiver a nil transport (by two nils), New an empty application name. A refusal leaves nothing behind and removes nothing.",
  ["configurations", "inputs"], "Every constructor and connector, with every network name and every kind of address.",
  "The tests make each thing once, with a network and an address that are right.",
  ["listener-guess.go", "listener-tcp.go", "listener-unix.go", "listener-unixdgram.go", "connector-tcp.go", "connector-local.go", "connector-local_unix.go", "connector-fd.go", "connector-invalid.go", "dialer.go", "listener.go", "syslog.go"],
  [("network switch", "listener-guess.go: GuessListener"), ("network switch", "dialer.go: Dial"), ("Connect", "connector-*.go")], [], ["results", "what is at the path", "bytes at the other end"])
p("C26", "Nothing is held longer than it is used",
  "Whatever happened before (failures, reconnections, refused connections and listeners, clients that came and left, malformed frames), a running Sender holds at most one connection to its destination and a running receiver one per connected client: goroutines and descriptors don't accumulate. When End of a Sender has returned, nothing of it is left. When a receiver has been ended, its clients have left and Receive has said that it is over, nothing of it is left either: no goroutine, no descriptor, no socket at its path, and it can be listened there again at once. The memory used doesn't grow with the number of messages that were sent and received. (Receivers on unixgram sockets, whose End is discussed elsewhere, are left open.)",
  ["histories", "fault_sequences"], "All histories of senders and receivers over tcp, unix and unixgram sockets, of any length.",
  "No test looks at what is left after End, nor repeats anything often enough for an accumulation to show.",
  ["connector.go", "connector-local.go", "connector-local_unix.go", "connector-tcp.go", "listener.go", "listener-tcp.go", "listener-unix.go", "listener-unixdgram.go", "dialer.go"],
  [("flushing goroutine and its deferred close", "connector.go: runQueue, dropOutput"), ("deferred closes of listener and connections", "listener.go: runQueue, tokenize, End")],
  [("output", "current connection or nil", "connector.go Sender.output"), ("conns", "connections being read", "listener.go runQueue")], ["goroutines created by the package", "descriptors of the process", "heap in use"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
