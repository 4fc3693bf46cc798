# property -> (technique, level note) for the claimed properties
BASE = "Sound over the abstraction for the paths it enumerates to a fixpoint; trusts the Go type checker, the SSA builder and the models of the standard library in analyzer/model.go, assumes that distinct symbolic objects do not alias unless compared equal, and that user callbacks follow their contracts. "
C = {
    "B01": ("path-sensitive typestate and nilness dataflow over the inlined SSA of all broker goroutines", BASE + "Invariants assumed at receives and loads are checked at the matching sends and stores."),
    "B02": ("path-sensitive typestate analysis of the connection goroutine (dataflow to a fixpoint over its inlined SSA)", BASE),
    "B03": ("path-sensitive counting of receipt writes per received frame over the inlined SSA", BASE),
    "B04": ("path-sensitive analysis of rejections over the inlined SSA", BASE + "The order of ERROR against frames that are already in the socket buffer is not observed."),
    "B10": ("path-sensitive typestate of the transaction store and its lists over the inlined SSA", BASE + "Frames inside transactions are assumed to be SEND, ACK or NACK frames without receipt and transaction headers; this is checked where they are stored."),
    "B14": ("path-sensitive effect analysis per received command over the inlined SSA", BASE),
    "B05": ("path-sensitive typestate of the connection goroutine up to its end, and of the dispatcher's release handshake, over the inlined SSA", BASE),
    "B06": ("path-sensitive ownership analysis of every queue message in the connection goroutine and the dispatcher over the inlined SSA", BASE + "Queue storages are taken at their interface contract; the one supplied is decided under B07."),
    "B07": ("path-sensitive analysis of list operations (storage and waiting lists) over the inlined SSA", BASE),
    "B08": ("path-sensitive key-flow analysis of the destination maps in the dispatcher over the inlined SSA", BASE),
    "B09": ("path-sensitive analysis of the topic list and of frame identity in a broadcast over the inlined SSA", BASE),
    "B11": ("path-sensitive header-flow and list-search analysis of deliveries and acknowledgements over the inlined SSA", BASE + "The number named by an acknowledgement is taken from the header that holds it; strconv round trips are taken at their contract."),
    "B12": ("path-sensitive value-flow analysis of the version negotiation over the inlined SSA", BASE + "The client's list is decided as a list of unknown length; a version in it is recognised by comparison with the versions the library knows."),
    "B13": ("path-sensitive value-flow and timer typestate analysis of the connection goroutine and the read loop over the inlined SSA", BASE + "How soon a timer or deadline fires is the runtime's; real-time punctuality is T01."),
    "B15": ("path-sensitive blocking-operation analysis of the dispatcher and of the end of a connection over the inlined SSA", BASE + "Two genuine violations (unconditional sends to a connection) are listed as known findings. The queue storage is part of the broker and may take its time."),
    "B17": ("path-sensitive termination analysis of the goroutines of a connection over the inlined SSA", BASE + "Assumes that a closed socket ends a pending read, that an expired deadline ends a pending write, and that the dispatcher takes requests (B15)."),
    "B16": ("ownership and goroutine-confinement analysis of fields, subscriptions and frames over the inlined SSA, with locksets", BASE + "The happens-before edges used are: go statements, channel hand-over, common locks."),
    "B18": ("path-sensitive error-flow analysis from the queue storage to the log, and construction-order analysis, over the inlined SSA", BASE),
    "F03": ("path-sensitive dataflow and typestate analysis of the frame reader over its inlined SSA, with interval and length facts for every index, slice and allocation", BASE + "The contracts of bufio.Reader and of the standard string functions are taken as documented; the amount of memory that a valid content-length asks for is not judged."),
    "F07": ("constant propagation of the end-of-line inputs through the frame reader, and effect analysis of the consumers of the absence of a frame, over the inlined SSA", BASE),
    "F01": ("path-sensitive grammar (token automaton) and error-flow analysis of the frame writer over its inlined SSA", BASE + "bufio.Writer is taken at its contract: a failed write makes all later operations fail."),
    "F02": ("constant evaluation of the escape tables as substitutions, with value-flow analysis of every header name and value through writer and reader over the inlined SSA", BASE + "strings.Replacer is taken at its contract for patterns that start with distinct bytes or share a prefix."),
    "F05": ("path-sensitive value-flow analysis of body and content-length in reader, senders and broker over the inlined SSA", BASE + "Applications that set a content-length of their own through an option are outside the property."),
    "C07": ("value-flow analysis of identifiers to a common atomic counter over the inlined SSA of every API function and option, with a scan of all operations on that counter", BASE),
    "C15": ("layout computation of atomically accessed fields with the type checker's sizes for 32-bit architectures", "Sound for addresses that can be traced to a field, variable, element or parameter; trusts the sizes of go/types for gc, and that allocations and variables start at multiples of eight, as sync/atomic promises."),
    "C16": ("call-graph confinement of write operations to one goroutine entry, with path-sensitive start order in the constructors", BASE + "That a frame is written whole by one call is F01."),
    "C05": ("two-phase path-sensitive typestate analysis of the transaction object over the inlined SSA of every API function", BASE + "What COMMIT and ABORT leave in the object is collected on every path that sends them; every operation is then explored from each of these states. A transaction is used by one goroutine at a time, as documented."),
    "C06": ("exhaustive path-sensitive header-flow analysis of Ack and Nack per version and mode over the inlined SSA", BASE),
    "C09": ("path-sensitive value-flow analysis of the negotiation and timer typestate of the I/O goroutine over the inlined SSA", BASE + "How soon a timer fires is the runtime's (T01). The configured tolerance is taken to be not negative, and intervals below a millisecond are not considered."),
    "C03": ("path-sensitive value-flow analysis of requests, their response channels and the frames routed to them, over the inlined SSA", BASE + "That receipt ids differ is C07. Two requests for which the application itself chooses the same receipt id are told apart by nobody. A response channel is identified by the allocation in the call that waits on it; Subscribe does not wait for receipts."),
    "C12": ("typestate analysis of the subscription object over the inlined SSA: contents left at one operation are the contents assumed for the next", BASE + "The options of Unsubscribe run on the frame before it is sent and may change its headers; what they do to its id is theirs."),
    "C04": ("typestate analysis of the connection object over the inlined SSA: contents left at one operation are the contents assumed for the next", BASE + "An operation that hands its frame over while the connection is just failing may still succeed if it asks for no receipt; operations are judged on a connection whose end has been marked."),
    "C10": ("path-sensitive typestate analysis of the client's goroutines and of the waits of its operations over the inlined SSA", BASE + "An application that does not read from a subscription's channel keeps the error, and everything behind it, from being delivered (documented as a bug of the library). The state of a subscription is taken as open, or as being unsubscribed, for the whole of a path."),
    "C11": ("path-sensitive value-flow analysis of MESSAGE frames through the client's goroutines over the inlined SSA", BASE + "Go channels keep their order (trusted). An application that does not read from a subscription's channel holds up all others. Two subscriptions for which the application chooses the same id are told apart by nobody."),
    "C14": ("lockset, publication and ownership analysis of the client's fields, captured variables, frames and messages over the inlined SSA of every operation and goroutine", BASE + "The happens-before edges used are: common mutexes, sync.Once, atomic operations, the closing of a channel, go statements and channel hand-over. A transaction is used by one goroutine at a time; message bodies and headers that the application has been given are its own."),
    "C13": ("path-sensitive typestate analysis of the connect sequence over the inlined SSA, and equality of regular languages for the heart-beat syntax", BASE + "Which branch the configured options take is not correlated between branches. Dial functions are judged with the handshake as one step that succeeds or fails."),
    "F04": ("inclusion-based points-to analysis, field- and context-sensitive, with escape comparison of results and parameters; alarms confirmed path by path", "Covers every exported function of the frame package that gives out frames, headers or lists. Trusts the documented ownership of what bufio, bytes, io and strings return; other functions of other packages are taken to return parts of their arguments."),
    "C01": ("ownership and channel typestate analysis (who closes, who sends, under which mutex and flag) over the inlined SSA of every operation and goroutine of the client", BASE + "Nil channels that the application sets into frames or options do not exist; sync.Once is taken at its contract."),
    "C02": ("path-sensitive blocking-operation and lock analysis of every operation and goroutine of the client over the inlined SSA", BASE + "A closed network connection ends pending reads and writes (trusted). An application that does not read from a subscription's channel, and a server that sends MESSAGE frames for a receipt id, hold up the I/O goroutine. That a goroutine is started is C10. How soon timers fire is the runtime's."),
    "F06": ("typestate analysis of the searches through the list of a header, and value-flow analysis of what is stored in it and returned, over the inlined SSA of every exported operation", BASE + "A list is searched by index, by range, by pairs or by what remains of it; a search in another way (in place compaction, binary search) is reported as a violation. A header that is added to itself, and names in an odd position that only a caller of NewHeader with an odd number of strings can make, are not considered beyond the value that is filled in."),
    "C08": ("path-sensitive value-flow analysis from the arguments of every option to frames, timers, buffers, statistics and loggers over the inlined SSA", BASE + "Every option is applied with unknown arguments, alone and (thorough) in every pair with another one, those of the CONNECT frame in both orders; combinations of three and more are not enumerated. Intervals below a millisecond are not considered. How soon a timer fires is the runtime's."),
}
