# The property table: properties.jsonl and MANIFEST.json are generated from it (tools/gen.py).
SC, SP, SQ, ST = "server/client/", "server/processor.go", "server/queue/", "server/topic/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, technique=technique, note=note))


# ---------------------------------------------------------------- broker
prop("B01", "No client input can crash the broker",
     "Whatever frames a client sends, in whatever order and with whatever headers, and however its connection ends, the broker process never panics. The broker keeps serving its other clients.",
     ["inputs", "histories", "schedules"], "every frame sequence and header combination of every client, in every interleaving of its acknowledgements, deliveries and disconnection",
     "the tests send a handful of well-formed frame sequences; a crash needs an odd header (no destination, unknown ack mode) or a particular history (negative acknowledgement followed by redelivery)",
     [SC + "conn.go", SC + "subscription.go", SC + "subscription_list.go", SC + "tx_store.go", SC + "util.go", SP, SQ + "queue.go", ST + "topic.go"],
     [("frame validation and command dispatch", SC + "conn.go: connecting, connected, handle*"),
      ("dispatcher", SP + ": Serve"), ("list membership guards", SC + "subscription_list.go: Add"),
      ("pending-frame guard", SC + "subscription.go: setSubscriptionHeader")],
     [("pending frame and list of a subscription", "a subscription is in at most one list, with at most one frame", SC + "subscription.go")],
     ["process exit", "TCP connection"])
prop("B02", "Nothing is served before a successful, authenticated connect",
     "Until a connection has sent a CONNECT or STOMP frame that the configured authenticator accepts, nothing it sends reaches a queue, a topic, a subscription or a transaction, and it receives neither CONNECTED nor MESSAGE frames. The CONNECTED frame is sent exactly once, as the answer to that frame, and before anything else.",
     ["inputs", "histories"], "every sequence of frames on a new connection, every header combination of the first frame and every verdict of the authenticator",
     "the tests log in correctly or fail in one way; they cannot cover every frame sequence that precedes or replaces the handshake",
     [SC + "conn.go", SC + "client.go", SC + "config.go"],
     [("connection state function", SC + "conn.go: connecting"), ("authentication", SC + "conn.go: handleConnect")],
     [("state of the connection", "which function handles the next frame", SC + "conn.go: stateFunc")], ["CONNECTED and ERROR frames", "requests to the dispatcher"])
prop("B03", "A receipt is sent exactly once, and only for accepted frames",
     "When the broker accepts a client frame (other than CONNECT/STOMP) that carries a receipt header, it sends exactly one RECEIPT frame whose receipt-id is that header's value; it never sends a RECEIPT for a frame without that header or for a frame it rejects with ERROR. The receipt header never travels on to other clients or into a transaction.",
     ["inputs", "histories"], "every frame with every combination of headers, in every state of the connection, inside and outside transactions",
     "the tests ask for receipts on two or three commands with valid headers; they do not combine receipts with rejected frames, transactions and the remaining commands",
     [SC + "conn.go", SC + "tx_store.go"],
     [("receipts", SC + "conn.go: sendReceiptImmediately"), ("frame handlers", SC + "conn.go: handle*")],
     [], ["RECEIPT frames written to the connection"])
prop("B04", "A rejected frame is answered with ERROR and ends the connection",
     "When the broker rejects a client frame (malformed header, unknown command, failed authentication, unknown transaction or subscription, unsupported version), the client gets exactly one ERROR frame with a message header, carrying the frame's receipt value as receipt-id if it had one, and the connection is then closed. A frame is never rejected silently, and nothing more is processed from that connection.",
     ["inputs", "histories"], "every frame and every rejection path of the broker's frame handling",
     "the tests exercise a few rejections; a missing error return or a rejection that leaves the connection open shows only for the particular frame",
     [SC + "conn.go", SC + "errors.go"],
     [("error frames", SC + "conn.go: sendErrorImmediately"), ("processing loop", SC + "conn.go: processLoop")],
     [], ["ERROR frames written to the connection", "close of the connection"])
prop("B05", "However a connection ends, the broker cleans up after it",
     "Whenever a connection ends (client disconnect, network failure, timeout, protocol error, failed write), the broker withdraws all of its subscriptions, forgets its open transactions, closes the socket, and gives every queue message that was delivered but not acknowledged, or was on its way to the client, back to its queue.",
     ["crash_points", "fault_sequences", "schedules"], "every point at which a connection can end and every state of its subscriptions at that point",
     "the tests end connections at a few convenient points; losing a message needs a disconnect at one particular moment",
     [SC + "conn.go", SC + "subscription_list.go", SC + "tx_store.go", SP],
     [("cleanup", SC + "conn.go: cleanupConn, cleanupSubChannel"), ("release handshake with the dispatcher", SP + ": Serve")],
     [("subscriptions of the connection", "active subscriptions by id", SC + "conn.go: subs"), ("unacknowledged deliveries", "subscriptions waiting for an ACK", SC + "conn.go: subList")],
     ["requests to the dispatcher", "close of the socket"])
prop("B06", "A queue message is neither lost nor duplicated by the broker",
     "At every moment a message sent to a queue has exactly one place: stored, or held by one subscription until that subscription acknowledges it. Every step that takes a message out of its place puts it into exactly one other: delivery to one subscription, requeue on NACK, failed write or disconnect, or discard on acknowledgement. A message never stays stored while a subscription of its queue waits, and a subscription whose message has been acknowledged or requeued, or needs no acknowledgement, becomes ready for the next one unless it has been withdrawn.",
     ["histories", "schedules", "crash_points"], "every sequence of sends, subscribes, deliveries, acknowledgements and disconnects, with a failure at any step",
     "the tests pass single messages along straight paths; loss and duplication need a failure or a concurrent unsubscribe at a particular step",
     [SC + "conn.go", SC + "subscription.go", SC + "subscription_list.go", SQ + "queue.go", SQ + "memory_queue.go", SP],
     [("queue dispatch", SQ + "queue.go: Subscribe, Enqueue, Requeue"), ("delivery and acknowledgement", SC + "conn.go: processLoop, handleAck, handleNack")],
     [("held message", "the frame a subscription holds", SC + "subscription.go: frame")], ["MESSAGE frames", "contents of the queue storage"])
prop("B07", "Queues and their subscribers are served first in, first out",
     "Messages stored in a queue come out in the order in which they were sent, a requeued message comes out before all others, and among waiting subscriptions the one that has waited longest is served first. One queue's messages never come out of another queue.",
     ["histories", "inputs"], "every sequence of enqueue, requeue and dequeue operations on every set of queues, and of waiting and leaving subscriptions",
     "the tests push two or three messages; an ordering fault can show only with certain sequences",
     [SQ + "memory_queue.go", SQ + "queue.go", SC + "subscription_list.go"],
     [("memory storage", SQ + "memory_queue.go"), ("waiting subscriptions", SC + "subscription_list.go: Add, Get")],
     [("message list", "stored frames by queue name", SQ + "memory_queue.go: lists")], ["order of MESSAGE frames"])
prop("B08", "A frame reaches exactly the destination it names",
     "A message sent to, and a subscription made to, a destination under /queue is handled by the queue of exactly that name, and any other by the topic of exactly that name; no operation on one destination touches another. Two names are the same destination only if they are equal.",
     ["inputs", "histories"], "every destination string and every sequence of operations",
     "the tests use a couple of names; wrong routing can depend on the name or on the request kind",
     [SP, SQ + "manager.go", ST + "manager.go"],
     [("routing", SP + ": Serve, isQueueDestination"), ("lookup", SQ + "manager.go: Find; " + ST + "manager.go: Find")],
     [("destinations", "queues and topics by name", SQ + "manager.go, " + ST + "manager.go")], ["MESSAGE frames"])
prop("B09", "A topic message goes once to every current subscriber, unshared",
     "A message sent to a topic is delivered exactly once to every subscription that is registered for the topic at that moment and to no other, and no two subscriptions are given the same frame object. Once its unsubscription has reached the topic, a subscription is given nothing more.",
     ["histories", "inputs"], "every number of subscribers and every history of joins and leaves",
     "the tests have up to three subscribers; the last and the only subscriber are handled specially and sharing shows only under concurrency",
     [ST + "topic.go", SC + "subscription.go", SP],
     [("broadcast", ST + "topic.go: Enqueue"), ("registration", ST + "topic.go: Subscribe, Unsubscribe")],
     [("subscribers", "registered subscriptions of the topic", ST + "topic.go: subs")], ["MESSAGE frames"])
prop("B10", "Broker transactions are all-or-nothing, isolated and in order",
     "Frames sent inside a transaction take no effect before its COMMIT; COMMIT applies each of them exactly once, in the order in which they were sent, and ABORT or the end of the connection discards all of them. Naming a transaction that is not open, or beginning one that is, is rejected, and one transaction's frames never end up in another.",
     ["histories", "inputs"], "every sequence of BEGIN, SEND, ACK, NACK, COMMIT and ABORT with every transaction name, and disconnection at any point",
     "the tests run one transaction through each ending",
     [SC + "tx_store.go", SC + "conn.go"],
     [("transaction store", SC + "tx_store.go"), ("transactional frames", SC + "conn.go: handleSend, handleAck, handleNack, handleCommit, handleAbort, handleBegin")],
     [("open transactions", "frames by transaction name", SC + "tx_store.go: transactions")], ["requests to the dispatcher", "ERROR frames"])
prop("B11", "Delivered messages identify themselves and are acknowledged by that id",
     "Every MESSAGE frame carries the destination, the id of the subscription it is for, and a message-id that is unique within the connection; an ack header with that id is present exactly when the subscription needs acknowledgements. An ACK or NACK affects only unacknowledged messages of this connection: exactly the named one, or, for an ACK in client mode, also those delivered before it.",
     ["histories", "inputs"], "every sequence of deliveries and acknowledgements in every ack mode and protocol version",
     "the tests acknowledge the only message outstanding",
     [SC + "conn.go", SC + "subscription.go", SC + "subscription_list.go"],
     [("message headers", SC + "subscription.go: setSubscriptionHeader; " + SC + "conn.go: allocateMessageId"), ("acknowledgement", SC + "subscription.go: IsAckedBy, IsNackedBy")],
     [("message id of a subscription", "id of the outstanding message", SC + "subscription.go: msgId")], ["MESSAGE frames"])
prop("B12", "The highest common protocol version is negotiated and reported",
     "The broker chooses the highest version that both it and the client support (1.0 when the client names none), announces that version in CONNECTED and applies that version's rules from then on. A client that supports none of the broker's versions is rejected.",
     ["inputs", "configurations"], "every accept-version list: any order, duplicates, unknown versions, blanks",
     "the tests use three lists",
     [SC + "util.go", SC + "conn.go", "version.go"],
     [("negotiation", SC + "util.go: determineVersion"), ("announcement", SC + "conn.go: handleConnect")],
     [("version of the connection", "negotiated version", SC + "conn.go: version")], ["CONNECTED frame"])
prop("B13", "The broker keeps its side of the heart-beat agreement",
     "The CONNECTED frame announces the heart-beat intervals the broker uses, derived from the client's header and the configured value as the protocol prescribes. Whenever the agreed sending interval has passed without anything being written, the broker writes a heart-beat, and whenever the agreed receiving interval (with tolerance) passes without input it ends the connection.",
     ["configurations", "inputs", "schedules"], "every heart-beat header value and configuration",
     "the tests check one or two intervals in real time",
     [SC + "conn.go", SC + "util.go"],
     [("negotiation", SC + "conn.go: handleConnect; " + SC + "util.go: getHeartBeat"), ("timers", SC + "conn.go: processLoop, readLoop")],
     [("intervals", "read and write timeouts of the connection", SC + "conn.go: readTimeout, writeTimeout")], ["CONNECTED frame", "heart-beats on the wire"])
prop("B14", "Every accepted command has exactly its effect",
     "For each client frame that it accepts, the broker performs exactly the operation that the command names and no other: SEND passes on that frame with its body and destination as one MESSAGE, SUBSCRIBE registers one subscription with the destination, id and ack mode of its headers (auto if absent), UNSUBSCRIBE ends the one subscription with that id, ACK and NACK look for the message they name, and the remaining commands change no subscription and send no message. A SUBSCRIBE with an id that is in use is not accepted.",
     ["inputs", "histories"], "every accepted frame with every combination of headers, in every state of the connection",
     "the tests send each command once or twice with ordinary headers; a wrong or missing effect can depend on a header value or on the state of the connection",
     [SC + "conn.go", SC + "subscription.go", SC + "request.go"],
     [("command dispatch", SC + "conn.go: connected"), ("frame handlers", SC + "conn.go: handleSend, handleSubscribe, handleUnsubscribe, handleAck, handleNack")],
     [("subscriptions of the connection", "active subscriptions by id", SC + "conn.go: subs")], ["requests to the dispatcher"])
prop("B15", "One slow client never blocks the broker's dispatcher",
     "The broker's central dispatcher never waits for an individual client connection: no client that is slow, stopped or gone can keep the broker from serving the others.",
     ["schedules", "fault_sequences"], "every schedule of the dispatcher and the connections, with any client stalled at any point",
     "a blocked dispatcher needs a stalled client with a full buffer at the moment of a delivery",
     [SP, SC + "conn.go", SC + "subscription.go"],
     [("dispatcher", SP + ": Serve"), ("hand-over to connections", SC + "subscription.go: SendQueueFrame, SendTopicFrame")],
     [], ["progress of other clients"])
prop("B16", "Broker state is not shared between goroutines without synchronisation",
     "Queues, topics and their subscriber lists are touched only by the dispatcher, the state of a connection only by its own goroutine, and a frame or subscription is handed between them only through channels, never used by the sender afterwards. There are no data races in the broker.",
     ["schedules", "programs"], "every interleaving of the goroutines",
     "the race detector sees only the interleavings of the tests that run",
     [SC + "conn.go", SC + "subscription.go", SP, SQ + "manager.go", ST + "manager.go", "server/server.go"],
     [("goroutines", SC + "conn.go: NewConn; " + SP + ": Serve, Listen"), ("channels", SC + "conn.go: requestChannel, subChannel, writeChannel, readChannel")],
     [], ["data races"])
prop("B17", "The goroutines of a connection end with the connection",
     "When a broker connection ends, for whatever reason and in whatever state, all goroutines started for it terminate: none stays blocked on a channel or on the socket.",
     ["schedules", "crash_points", "histories"], "every schedule and every way for a connection to end",
     "a leaked goroutine is invisible to the tests, and needs the connection to end at a particular moment",
     [SC + "conn.go", SC + "client.go"],
     [("cleanup", SC + "conn.go: cleanupConn"), ("read loop", SC + "conn.go: readLoop")],
     [], ["number of goroutines"])
prop("B18", "The queue storage is started before use, and its errors do not vanish",
     "A configured queue storage is started before its first use, and every error it reports is handled or logged; a storage error never crashes the broker and never makes it deliver a message it does not have. Without a configured storage, queues are kept in memory.",
     ["configurations", "fault_sequences"], "every storage implementation and every error it may return at any operation",
     "the tests use the in-memory storage, which never fails",
     [SP, SQ + "queue.go", SQ + "storage.go", "server/server.go", "server/queue_storage.go"],
     [("storage set-up", SP + ": newRequestProcessor"), ("error handling", SP + ": Serve")],
     [], ["log output", "calls to the storage"])

# ---------------------------------------------------------------- client library
prop("C01", "The client library never panics on a channel",
     "Whatever the server sends, and whenever the application calls Unsubscribe, Disconnect or MustDisconnect (also repeatedly and concurrently), the client library never sends on a closed channel and never closes a channel twice.",
     ["schedules", "histories"], "every interleaving of the application's calls, incoming frames and the end of the connection",
     "the tests run one order of events; the panic needs a particular interleaving",
     ["conn.go", "subscription.go"],
     [("ends of a subscription", "subscription.go: readLoop, closeChannel, Unsubscribe"), ("ends of a connection", "conn.go: processLoop, MustDisconnect, Disconnect")],
     [("subscription state", "open, closing or closed", "subscription.go: state")], ["process exit"])
prop("C02", "No client call hangs when the connection goes away",
     "Once the connection to the server has terminated, every pending or later operation on the connection, on its transactions and on its subscriptions returns within the configured timeouts; none waits forever. An operation that waits for its receipt does not keep others from being performed, except for Disconnect, which is the last one. (An application that stops reading from a subscription's channel holds up the whole connection, as documented.)",
     ["schedules", "crash_points"], "every operation and every moment at which the connection can terminate",
     "the tests do not end the connection in the middle of an operation",
     ["conn.go", "subscription.go", "transaction.go"],
     [("requests to the processing loop", "conn.go: sendRequest, readReceipt"), ("end of the loop", "conn.go: processLoop")],
     [("end of the connection", "closed when the processing loop has ended", "conn.go: done")], ["return of the call"])
prop("C03", "An operation that asks for a receipt succeeds only on that receipt",
     "A send, unsubscribe, disconnect, ack, nack or transaction operation that requests a receipt reports success only after the server's RECEIPT for that very frame; an ERROR frame, a timeout or the end of the connection makes it report an error. (Unsubscribing from a temporary reply-to queue, which the server knows nothing of, asks for none.)",
     ["schedules", "inputs", "fault_sequences"], "every order of RECEIPT, ERROR and unrelated frames from the server, and its silence",
     "the tests' fake server always answers in the expected order",
     ["conn.go", "subscription.go", "transaction.go", "id.go"],
     [("waiting for the receipt", "conn.go: readReceipt, Send, Disconnect, Subscribe; subscription.go: Unsubscribe"), ("routing", "conn.go: processLoop")],
     [("waiting channels", "who waits for which receipt or subscription id", "conn.go: processLoop channels")], ["returned error"])
prop("C04", "A closed connection says so, and closing it again is harmless",
     "After a connection has been disconnected or has failed, every operation on it that needs the server returns an error instead of pretending success, and Disconnect and MustDisconnect can be called any number of times without effect. Either of them closes the network connection.",
     ["histories", "schedules"], "every sequence of operations after the end of the connection",
     "the tests try one or two operations after Disconnect",
     ["conn.go", "subscription.go"],
     [("closed flag", "conn.go: closed, closeMutex")],
     [("closed", "whether the connection is closed", "conn.go: closed")], ["returned error"])
prop("C05", "A client transaction is used only while it is open",
     "After a transaction has been committed or aborted, each further operation in it returns an error and sends nothing. Send, ack and nack in a transaction carry its id, and BEGIN, COMMIT and ABORT are sent exactly once, with its id.",
     ["histories", "inputs"], "every sequence of operations on a transaction, including failing ones",
     "the tests run the straight sequences",
     ["transaction.go", "conn.go"],
     [("completed flag", "transaction.go")],
     [("completed", "whether the transaction has ended", "transaction.go: completed")], ["frames on the wire", "returned error"])
prop("C06", "ACK and NACK frames name the message as the protocol version demands",
     "Acknowledging a message sends exactly one ACK (or NACK) frame that identifies it by the headers the negotiated version prescribes, with values taken from the message itself, and carries the transaction id inside a transaction. Messages of automatic subscriptions are never acknowledged, and NACK is refused where the version has none.",
     ["inputs", "configurations"], "every message, ack mode, protocol version and transaction state",
     "the tests cover some version and mode pairs with well-formed messages",
     ["conn.go", "transaction.go", "ack.go", "message.go"],
     [("acknowledgement frames", "conn.go: createAckNackFrame, Ack, Nack")],
     [], ["ACK and NACK frames on the wire"])
prop("C07", "Identifiers chosen by the client library are unique",
     "The subscription ids, receipt ids and transaction ids that the library generates never repeat, however many goroutines ask for one.",
     ["schedules", "histories"], "every interleaving of concurrent requests for an id",
     "the tests allocate a few ids",
     ["id.go", "conn.go", "subscription.go", "transaction.go"],
     [("id generator", "id.go: allocateId")],
     [("counter", "last id", "id.go")], ["headers of frames"])
prop("C08", "Every documented option takes effect",
     "Each option of a connection (ConnOpt), of a sent frame (SendOpt), of a subscription (SubscribeOpt) and each acknowledgement mode does what it documents, whatever other options are given with it: the value given by the application reaches the header of the CONNECT or other frame, the capacity of the channel, the size of the buffer, the timer, the statistics or the logger that it names. Custom headers are all present and in order. A failing option fails the operation with nothing sent. Options that are not given leave the documented default.",
     ["configurations", "inputs"], "every combination of options and values",
     "the tests use a few options; a value that is stored but never used goes unnoticed",
     ["conn_options.go", "send_options.go", "subscribe_options.go", "conn.go", "stomp.go"],
     [("connect options", "conn_options.go"), ("frame options", "send_options.go, subscribe_options.go")],
     [("options", "values until they are used", "conn_options.go: connOptions")], ["frames on the wire", "behaviour of the connection"])
prop("C09", "The client keeps its side of the heart-beat agreement",
     "The CONNECT frame offers the configured heart-beat intervals. If either side declines one direction, there are no heart-beats in it: the client neither sends them, nor times out. Otherwise the client sends a heart-beat whenever an interval no longer than the protocol's maximum of both sides' values passes without a write, and ends the connection when nothing arrives for longer than that maximum plus the tolerance (times the configured grace period multiplier), but not earlier.",
     ["configurations", "inputs", "schedules"], "every pair of offered and announced intervals",
     "the tests check single values in real time",
     ["conn.go", "conn_options.go", "frame/heartbeat.go"],
     [("negotiation", "conn.go: Connect"), ("timers", "conn.go: processLoop")],
     [("intervals", "agreed timeouts", "conn.go: readTimeout, writeTimeout")], ["heart-beats on the wire", "errors delivered to the application"])
prop("C10", "The end of a connection reaches everyone who waits",
     "When the server sends an ERROR frame, every open subscription receives it as an error message; when the connection fails in another way, every open subscription receives an error message as well. Its channel is then closed, and every operation that waits for a receipt fails. No waiter is forgotten, however many there are.",
     ["schedules", "fault_sequences", "histories"], "every number of subscriptions and waiting operations, and every moment of failure",
     "the tests have one subscription",
     ["conn.go", "subscription.go"],
     [("broadcast of errors", "conn.go: processLoop, sendError"), ("delivery", "subscription.go: readLoop")],
     [("waiting channels", "who waits for which receipt or subscription id", "conn.go: processLoop channels")], ["messages on the subscription channel", "returned error"])
prop("C11", "Each incoming MESSAGE reaches its subscription once, intact and in order",
     "Every MESSAGE frame from the server yields exactly one message on the channel of the subscription that it names, with the frame's destination, content type, headers and body, in the order of arrival; no other subscription sees it. A MESSAGE for an unknown subscription disturbs nothing.",
     ["histories", "inputs", "schedules"], "every interleaving of messages for any number of subscriptions",
     "the tests deliver a few messages to one or two subscriptions",
     ["conn.go", "subscription.go", "message.go"],
     [("routing", "conn.go: processLoop"), ("delivery", "subscription.go: readLoop")],
     [("waiting channels", "channel by subscription id", "conn.go: processLoop channels")], ["messages on the subscription channel"])
prop("C12", "Unsubscribe ends a subscription exactly once",
     "Unsubscribe sends one UNSUBSCRIBE frame with the subscription's id, closes the message channel only after the server's confirmation, and afterwards the subscription reports itself inactive. A second Unsubscribe, also a concurrent one, sends nothing and returns an error.",
     ["schedules", "histories"], "every interleaving of Unsubscribe calls, incoming messages and the end of the connection",
     "the tests unsubscribe once, on an idle subscription",
     ["subscription.go", "conn.go"],
     [("state machine", "subscription.go: Unsubscribe, closeChannel, readLoop")],
     [("subscription state", "open, closing or closed", "subscription.go: state")], ["UNSUBSCRIBE frames on the wire", "returned error"])
prop("C13", "Connecting either yields a usable connection or a clean error",
     "Connect sends exactly one CONNECT or STOMP frame and returns a connection only after the server's CONNECTED frame, with the version, session and server announced in it; any other answer, an unsupported version or a malformed heart-beat gives an error. When dialling fails at any step, the network connection that was opened is closed again.",
     ["inputs", "fault_sequences", "configurations"], "every answer of the server and every failing step",
     "the tests' fake server answers well, or with one error",
     ["conn.go", "conn_options.go", "version.go"],
     [("handshake", "conn.go: Connect"), ("dialling", "conn.go: Dial, DialWithContext")],
     [], ["CONNECT frame", "returned error", "open sockets"])
prop("C14", "Client state shared between goroutines is synchronised",
     "Every piece of client state that more than one goroutine may touch is either never changed after construction, or accessed only atomically, or only under its lock, or only by one goroutine. The client library has no data races on its own state. (A transaction is used by one goroutine of the application at a time.)",
     ["schedules", "programs"], "every interleaving of the application's goroutines and the library's own",
     "the race detector sees only the interleavings of the tests that run",
     ["conn.go", "subscription.go", "transaction.go", "id.go"],
     [("lock", "conn.go: closeMutex; subscription.go: closeMutex"), ("atomics", "conn.go, subscription.go, id.go")],
     [], ["data races"])
prop("C15", "The library works on 32-bit platforms",
     "Every 64-bit counter that is accessed atomically is 64-bit aligned on every platform Go supports, so no operation of the library faults there.",
     ["configurations", "programs"], "every supported architecture",
     "the tests run on a 64-bit machine",
     ["conn.go", "id.go", "subscription.go", "transaction.go"],
     [("field order", "conn.go: Conn")],
     [], ["process exit on 386 and arm"])
prop("C16", "Only one goroutine writes to a connection",
     "All bytes written to one network connection, by broker or client, come from a single goroutine at a time, a whole frame at a time, so frames are never interleaved on the wire.",
     ["schedules", "programs"], "every interleaving of sends, receipts, heart-beats and deliveries",
     "interleaved writes need simultaneous writers with frames larger than the buffer",
     ["conn.go", SC + "conn.go", "frame/writer.go"],
     [("processing loops", "conn.go: processLoop; " + SC + "conn.go: processLoop")],
     [("writer", "frame writer of the connection", "conn.go: writer")], ["bytes on the wire"])

# ---------------------------------------------------------------- wire format
prop("F01", "Frames are written in the STOMP grammar, completely, or an error is returned",
     "Writing a frame produces the command line, one name:value line for every header entry in order, an empty line, exactly the body and a NUL byte, and makes sure that it reaches the connection; writing no frame produces a single newline. A failed write is reported.",
     ["inputs", "fault_sequences"], "every frame, and an I/O error at every byte",
     "the tests write a few small frames to a buffer that never fails",
     ["frame/writer.go", "frame/encode.go"],
     [("writer", "frame/writer.go: Write")], [], ["bytes on the wire", "returned error"])
prop("F02", "Header escaping is lossless and cannot inject headers",
     "Every header name and value is escaped when written and unescaped when read, each special character having its own escape sequence, so that what is read equals what was written and no value can end its line or introduce another header. Unknown escape sequences are not silently changed into something else.",
     ["inputs"], "every header name and value",
     "the tests escape a few sample strings",
     ["frame/encode.go", "frame/writer.go", "frame/reader.go"],
     [("escape tables", "frame/encode.go")], [], ["header values after a round trip"])
prop("F03", "Malformed input is reported as an error, never a crash or a frame",
     "Reading from a connection returns a frame, a heart-beat or an error for every possible byte stream and never panics; a frame is returned only if its command is known, every header line has a colon, a content-length (if any) is a valid number, and the body is terminated by NUL. A stream that ends inside a frame is an error.",
     ["inputs", "fault_sequences"], "every byte stream and every point at which it may end",
     "the tests read a few well-formed frames and a few malformed ones",
     ["frame/reader.go", "frame/encode.go"],
     [("reader", "frame/reader.go: Read")], [], ["returned frame and error"])
prop("F04", "A frame owns its data",
     "A copy of a frame shares no mutable data with the original, and a frame that was read does not share memory with the reader's buffer, so neither changing a copy nor reading on alters a frame that has been handed out.",
     ["inputs", "histories", "schedules"], "every frame and every later use of the copy, the original or the reader",
     "sharing is invisible until one of the copies is modified later",
     ["frame/frame.go", "frame/header.go", "frame/reader.go"],
     [("copy", "frame/frame.go: Clone; frame/header.go: Clone"), ("body", "frame/reader.go: Read")], [], ["contents of frames"])
prop("F05", "The content-length is right when written and obeyed when read",
     "A frame that the library sends with a body carries a content-length equal to the body's length unless the application suppressed it, and a frame that is read with a content-length has exactly that many body bytes, NULs included. Without one, the body ends at the first NUL.",
     ["inputs", "configurations"], "every body and every header combination",
     "the tests use short bodies",
     ["conn.go", "frame/reader.go", "frame/header.go", "send_options.go"],
     [("sending", "conn.go: createSendFrame"), ("reading", "frame/reader.go: Read; frame/header.go: ContentLength")], [], ["content-length header", "body"])
prop("F06", "Header collections behave like ordered multimaps with first-match lookup",
     "Adding appends an entry and never changes another; looking a name up gives its first value, and says whether it is there; setting changes the first entry of that name, or appends one if there is none; deleting removes every entry of that name and nothing else. A collection is made of exactly the given entries in their order, a clone holds the same entries as the original in memory of its own, and adding another collection appends all of its entries. Lookups never change the collection.",
     ["inputs", "histories"], "every sequence of operations with every name",
     "the tests run a few operations on small collections",
     ["frame/header.go"],
     [("operations", "frame/header.go")], [], ["results of lookups"])
prop("F07", "Heart-beats are neither frames nor errors",
     "A lone end-of-line between frames, with or without carriage return, is reported as the absence of a frame without an error, by broker and client alike, and neither side treats it as a frame: it changes nothing except the read timeout.",
     ["inputs", "histories"], "every stream in which heart-beats occur between frames",
     "the tests contain one or two heart-beats",
     ["frame/reader.go", "conn.go", SC + "conn.go"],
     [("reader", "frame/reader.go: Read"), ("consumers", "conn.go: processLoop; " + SC + "conn.go: readLoop, processLoop")], [], ["behaviour after a heart-beat"])

# ---------------------------------------------------------------- not decidable here
NA = {}
prop("T01", "Heart-beats and timeouts are punctual",
     "Heart-beats are sent early enough in real time for the peer never to time out while the process is healthy, and a silent peer is detected within the agreed interval plus tolerance.",
     ["schedules", "configurations"], "every scheduling delay and clock",
     "needs real time", ["conn.go", SC + "conn.go"], [("timers", "conn.go: processLoop")])
NA["T01"] = "quantifies over wall-clock delays of the scheduler, the network and the peer; no static argument over the source bounds them (that timers are armed with the negotiated interval on every path is decided by B13 and C09)"
prop("T02", "Memory use is bounded by what is stored and configured",
     "Neither a client nor a server can make the other side use memory beyond the configured buffers and the messages that are stored.",
     ["inputs", "histories"], "every input and every load",
     "needs unbounded load", ["frame/reader.go", SQ + "memory_queue.go"], [("buffers", "frame/reader.go")])
NA["T02"] = "the amount of memory is a runtime quantity: the queues are unbounded by design and a frame may announce any content-length, so there is no bound in the source that a static rule could establish"
prop("T03", "Load is shared fairly among connections",
     "No connection is starved by others that send or receive more; throughput is shared in proportion.",
     ["schedules"], "every load and schedule",
     "needs a statistical measure over schedules", [SP], [("dispatcher", SP + ": Serve")])
NA["T03"] = "fairness depends on the Go scheduler and on channel selection, which the source does not determine (service order within one queue is decided by B07)"
