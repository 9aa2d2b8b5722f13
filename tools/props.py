TRUST = "Random and structured search, not a proof: it covers the generated cases only. Trusted: the virtual network/clock/scheduler of the harness, the reference model, and third-party crates."
prop("C01", "Session locks follow the LXI lock model",
     "For any number of sessions and any sequence of lock, unlock, access and disconnect operations, an exclusive or keyed shared lock is granted exactly when the locks held by other sessions allow it (one exclusive holder; one key shared by any number of holders; a holder may upgrade), releasing drops every lock of that session and no other, and every refusal names a true reason. The reported lock state (exclusive flag, number of shared holders) always equals the locks actually held.",
     ["histories", "inputs"], "every sequence of operations by any number of sessions, through the direct and the remote handle",
     "Five fixed scenarios with two or three handles are tested; the claim is about every history of grants, refusals, upgrades, releases and drops.",
     ["device/src/lock.rs"], [("SharedLock counters and key", "device/src/lock.rs SharedLock"), ("grant rules", "device/src/lock.rs LockHandle::try_acquire_exclusive/try_acquire_shared/try_release/can_lock")],
     [("shared_lock / num_shared_locks / exclusive_lock", "what is held", "device/src/lock.rs"), ("has_shared / has_exclusive", "what this session holds", "device/src/lock.rs")],
     ["results of try_acquire/try_release/try_lock/can_lock, lock_info"], TRUST, "model-based random testing against a reference lock state machine")
prop("C02", "The device is never handed out past another session's lock",
     "Under every interleaving of sessions, a session is given access to the device only if at that moment no other session holds an exclusive lock and either it holds the shared lock or nobody does; two sessions never have the device at once, and two sessions never hold conflicting locks.",
     ["schedules", "histories"], "every task schedule, thread preemption and cancellation of waiting sessions",
     "Tests run one schedule of two tasks; the failures need a lock to be granted while another session is already queued for the device.",
     ["device/src/lock.rs"], [("permission check around taking the device", "device/src/lock.rs async_lock/try_lock of LockHandle and RemoteLockHandle")],
     [], ["order of grants and device guards"], TRUST, "random schedule search (tasks and preempted threads) with cancellation, invariant on the history")
prop("C03", "No waiting session is left stranded",
     "Whenever nothing is runnable, every session waiting for a lock or for the device is waiting for something another session really holds: each release, disconnect, lock change or cancelled waiter wakes whoever can proceed, under every interleaving.",
     ["schedules", "histories", "fault_sequences"], "every schedule, every point of cancellation, every order of release",
     "One test waits once; lost wake-ups need a release between a waiter's check and its registration, or a waiter cancelled after being notified.",
     ["device/src/lock.rs"], [("listen/notify", "device/src/lock.rs SharedLock::listen, notify_release, notify_acquired"), ("retry loops", "device/src/lock.rs async_acquire*, async_lock")],
     [("event", "registered waiters", "device/src/lock.rs")], ["completion of pending futures"], TRUST, "random schedule search, quiescence oracle")
prop("C04", "The lock does not grow with use",
     "Any workload of lock requests, device accesses, cancelled waits and disconnects that returns to the state it started from leaves no memory behind, however often it is repeated.",
     ["histories"], "every repeatable workload, any number of repetitions",
     "No test measures memory or repeats an operation more than a few times.",
     ["device/src/lock.rs"], [("waiter list", "device/src/lock.rs SharedLock::listen, notify_*")],
     [("event", "registered waiters", "device/src/lock.rs")], ["bytes in use after n and after 9n repetitions"], TRUST, "random workload cycles, allocation counter as oracle")
prop("C05", "Status broadcasts reach every session, in order",
     "Every status byte the device publishes is seen by every subscribed session that has taken its earlier ones; each session sees a subsequence of the published bytes in order, nothing published before it subscribed and nothing twice, however many sessions subscribe, lag or vanish; a vanished session leaves nothing behind.",
     ["histories", "schedules"], "every interleaving of publishing, subscribing, receiving, cloning and dropping",
     "One test sends one value to two receivers.",
     ["device/src/status.rs"], [("broadcast over bounded channels", "device/src/status.rs Sender::send_status, get_new_receiver")],
     [("senders", "one bounded queue per subscriber", "device/src/status.rs")], ["values taken from the receivers"], TRUST, "model-based random testing, task and thread schedule search")
prop("C06", "Raw socket: every complete line is executed once, in order",
     "On a raw TCP or Unix-socket connection the device executes exactly the terminated lines the client sent, byte for byte, once each and in order, and the client receives exactly the responses, each followed by the write terminator, regardless of how the bytes are segmented, how slowly they are read, or what other clients do; an unterminated rest is never executed. No more clients than the configured limit are served at once, and the next one is served when one leaves.",
     ["inputs", "schedules", "fault_sequences", "configurations"], "every byte content, segmentation, terminator and buffer configuration, number of clients, disconnect point",
     "Tests send one short command in one segment to one client.",
     ["raw/src/server/mod.rs"], [("read_until loop", "raw/src/server/mod.rs process_client"), ("accept loops with back-pressure", "raw/src/server/mod.rs accept, accept_unix")],
     [], ["bytes received by clients, commands executed by the device"], TRUST, "random clients over a virtual network, reference line splitter as oracle")
prop("C07", "Telnet: lines, echo, prompts and options behave as specified",
     "On a telnet connection the device executes exactly the LF or CR LF terminated lines (after erase-character and erase-line), and the client receives exactly the escaped responses ended by CR LF, the echo if it asked for it, one prompt per wait for input with a go-ahead unless suppressed, and the correct answer to each option request; this does not depend on segmentation, and the session ends when the client disconnects. No more clients than the limit are served at once.",
     ["inputs", "schedules", "fault_sequences"], "every line content except IAC bytes, every segmentation of data, every sequence of whole control sequences",
     "One test sends one command and reads one response.",
     ["telnet/src/server/mod.rs"], [("event loop over libtelnet-rs", "telnet/src/server/mod.rs process_client"), ("accept loop with back-pressure", "telnet/src/server/mod.rs accept")],
     [("cmd", "line being assembled", "telnet/src/server/mod.rs")], ["bytes received by clients, commands executed by the device"], TRUST, "random clients over a virtual network, reference telnet line discipline as oracle")
prop("C08", "A boxed device is the device itself; the example devices do what they say",
     "Every operation on a device behind any number of boxes (as servers use trait objects) reaches that device once, with the same argument, and returns its result or error, local lockout included. The echo device echoes every command; the simple device answers *IDN? and QUERY? in any case and with or without a line feed, answers EVENT with nothing and anything else reversed, and its status shows remote, trigger and clear exactly as they happened.",
     ["inputs", "histories"], "every sequence of device operations, every command and trigger source, errors included",
     "No test uses a boxed device or more than a few of the example commands.",
     ["device/src/lib.rs", "device/src/util.rs"], [("forwarding for Box<DEV>", "device/src/lib.rs impl Device for Box"), ("example devices", "device/src/util.rs EchoDevice, SimpleDevice")],
     [("rmt, trig, clear", "what the status reports", "device/src/util.rs SimpleDevice")], ["results of the operations, operations seen by the inner device"], TRUST, "differential random testing of the boxed against the plain device, model of the example devices")
H = "hislip/src/server/"
M = "hislip/src/common/messages.rs"
prop("C10", "HiSLIP sessions: two channels, unique identifiers, limited number",
     "For every order of clients connecting, initializing, leaving and coming back, a session is opened only for a registered sub-address (the empty one meaning the default), gets an identifier no open session has, even after the identifiers wrap around, and the lower of both protocol versions; its asynchronous channel is accepted exactly once and only for an open session. A session is not usable before both channels exist, and then acts on its own device only. At most the configured number of sessions is open at once, every session that ends makes room for another, and a refused client gets a fatal error and is disconnected.",
     ["histories", "inputs", "configurations"], "every history of initializations, early use, disconnects and reconnects by any number of clients",
     "Unit tests exist for the identifier counter only; the Python tests open one session.",
     [H + "mod.rs", H + "session/mod.rs"], [("Initialize / AsyncInitialize", H + "mod.rs handle_session"), ("identifiers, session limit and collection", H + "mod.rs InnerServer")],
     [("sessions", "weak handles by identifier", H + "mod.rs InnerServer"), ("state", "handshake or normal", H + "session/mod.rs SharedSession")], ["messages received by clients, connection state, device effects"], TRUST, "model-based random testing over a virtual network")
prop("C11", "HiSLIP data transfer is faithful in both directions",
     "For every split of a message into Data and DataEnd, every payload and every speed of sending and reading, the device executes exactly the messages sent, once each, in order and byte for byte; the client receives exactly the response of each, in order, under the message identifier of the query, in pieces not larger than the size it announced, the last and only the last of them marked as the end. The configured identification answers *IDN? (in any case) instead of the device and leaves nothing behind, and concurrent sessions do not mix.",
     ["inputs", "schedules", "configurations"], "every content, split, message size limit, segmentation, back-pressure and number of sessions",
     "The Python tests send short single messages with the default limits.",
     [H + "session/synchronous.rs", M], [("Data/DataEnd assembly and response chunks", H + "session/synchronous.rs handle_session"), ("framing", M + " read_from/write_to")],
     [("buffer", "message being assembled", H + "session/synchronous.rs"), ("max_message_size", "announced by the client", H + "session/mod.rs")], ["messages executed by the device and received by clients"], TRUST, "random clients over a virtual network, reference assembler as oracle")
prop("C12", "HiSLIP: odd, oversized, truncated and hostile messages do no harm",
     "Whatever bytes arrive on any HiSLIP channel, the server never panics and other sessions are served as before; a misplaced, unknown, vendor-specific or oversized message is answered with the matching error and skipped as a whole, and the channel stays in step; a message that cannot belong to the protocol ends the connection with the matching fatal error. A message cut off by the end of the connection is never acted on, and no message takes more memory than the configured message size.",
     ["inputs", "fault_sequences"], "every byte sequence on every channel, every point of disconnection, every message size limit",
     "The repository has no test that sends an invalid message.",
     [M, H + "mod.rs", H + "session/synchronous.rs", H + "session/asynchronous.rs"], [("length check and reading", M + " Message::read_from"), ("error replies", M + " send_fatal/send_nonfatal and the match arms of the sessions")],
     [], ["replies, connection state, device effects, bytes allocated"], TRUST, "structured fuzzing of a virtual-network server against a reaction table")
prop("C13", "HiSLIP locks exclude other sessions and are always answered",
     "For every interleaving of lock, release, message and disconnect of any number of HiSLIP sessions and a session of another protocol, a lock is granted exactly when the device's lock allows it, at once or as soon as others release within the requested timeout, and otherwise refused, as a failure, once the timeout has passed and no earlier; an invalid request is answered as an error; a release reports what was held. Messages and triggers of a session wait while another session's lock forbids them and are executed, once and in order, as soon as it does not. The lock information reports the locks really held, and a session that disconnects, even while it waits for a lock, holds nothing.",
     ["schedules", "histories"], "every interleaving of lock requests, timeouts, releases, messages, device use and disconnects",
     "No test uses HiSLIP locks from more than one session.",
     [H + "session/asynchronous.rs", H + "session/synchronous.rs", "device/src/lock.rs"], [("AsyncLock", H + "session/asynchronous.rs"), ("waiting for the device", H + "session/synchronous.rs handle_session")],
     [], ["lock responses, order of executed messages, virtual time"], TRUST, "model-based random testing with virtual time, linearization against the lock model")
prop("C14", "HiSLIP device clear leaves a clean, working session",
     "In whatever state a session is (idle, in the middle of a message, messages waiting for a locked or busy device, a response the client does not read), a device clear is acknowledged on both channels, no incomplete, waiting or later message of that session is executed, a response may be cut short but not altered, and the device is cleared exactly once unless another session has it locked. The next message is executed alone and answered alone, and other sessions notice nothing.",
     ["schedules", "histories"], "every state of the session, every point of time and every number of clears",
     "No test clears a device over HiSLIP.",
     [H + "session/synchronous.rs", H + "session/asynchronous.rs"], [("clear signal", H + "session/mod.rs SharedSession::clear"), ("clear_buffer and abort of the lock wait", H + "session/synchronous.rs")],
     [("clear", "one pending clear signal", H + "session/mod.rs")], ["messages received by clients, device effects"], TRUST, "random pre-states and schedules, prefix oracle")
prop("C15", "HiSLIP service requests, status, remote/local and trigger",
     "Status bytes the device publishes reach every session as service requests carrying that byte, in order, at most one per status query, and one without delay when none is outstanding; a session is never closed or garbled by them, wherever they fall in a message. A status query returns the device's status, announcing no message when none is available, even while another session holds the lock, each remote/local request has exactly its documented effect on the device, and a trigger triggers the device once; remote/local requests and triggers wait for the lock, and every request is answered once, without any two operations blocking each other for good.",
     ["schedules", "histories"], "every interleaving of published bytes, requests, locks and device use by any number of sessions",
     "No test publishes a status byte to a HiSLIP session or sends a remote/local request.",
     [H + "session/asynchronous.rs", H + "session/synchronous.rs"], [("select between status stream and messages", H + "session/asynchronous.rs handle_session"), ("AsyncRemoteLocalControl, AsyncStatusQuery", H + "session/asynchronous.rs"), ("Trigger", H + "session/synchronous.rs")],
     [("srq_bit", "a service request is outstanding", H + "session/asynchronous.rs"), ("enable_remote", "remote enable", H + "session/mod.rs")], ["messages received by clients, device effects"], TRUST, "random schedules, all merges of two streams as oracle, reference effects")
prop("C16", "HiSLIP code tables are one-to-one",
     "Every message type, fatal error and error code of the HiSLIP specification decodes to its own name and encodes back to the same number, undefined message types are rejected and vendor-specific ones keep their number; protocol versions order by major and minor number and are packed into message parameters without loss.",
     ["inputs"], "every code, every pair of protocol versions",
     "Not tested at all.",
     [M, "hislip/src/common/errors.rs", "hislip/src/common/mod.rs"], [("from_message_type/get_message_type", M), ("from_error_code/error_code", "hislip/src/common/errors.rs")], [], ["public functions"], TRUST, "random and exhaustive round trips against the specification's tables")
V = "vxi11/src/server/vxi11/"
prop("C20", "VXI-11 links: unique identifiers, valid until destroyed or disconnected",
     "For every history of any number of clients opening and destroying links and losing their connections, a link identifier names exactly one open link of the whole server, keeps naming it until it is destroyed or its connection ends, and is refused as an invalid link ever after; a link is bound to the device it was opened for, its limits and abort port are reported truthfully, and everything it held (locks, service requests) is released when it ends.",
     ["histories", "fault_sequences"], "every history of create, use, destroy and disconnect by any number of clients on any number of devices",
     "The Python tests open one link on one connection; reuse, foreign identifiers and disconnects are never sampled.",
     [V + "core_service.rs", V + "mod.rs", V + "abort_service.rs"], [("link table", V + "mod.rs VxiInner add_link/remove_link/next_link_id"), ("create and destroy", V + "core_service.rs")],
     [("links", "open links by identifier", V + "mod.rs")], ["RPC replies, lock state of the device, device effects"], TRUST, "model-based random testing over a virtual network")
prop("C21", "VXI-11 write, read, clear and status transfer messages faithfully",
     "A link's device executes exactly the messages written to it, once each when END arrives, whole and byte for byte however they were split into writes; reads return exactly the response, in order and in pieces not exceeding the request, with truthful reason bits (size, termination character, end) and END exactly at its end; clear empties the buffers of that link only; and the status byte shows message-available exactly while a response is buffered. An operation refused because of a lock, an invalid link or a size limit changes nothing, and one the device itself fails is reported as failed.",
     ["inputs", "histories"], "every message content, split, request size, termination character, order of operations and lock state",
     "The Python tests send one short query; splits, termination characters, refused operations and large messages are not sampled.",
     [V + "core_service.rs"], [("device_write/device_read/device_clear/device_readstb", V + "core_service.rs")],
     [("in_buf, out_buf", "message being assembled and response being read", V + "core_service.rs Link")], ["RPC replies, messages executed by the device"], TRUST, "model-based random testing against a reference link buffer")
prop("C22", "VXI-11 requests respect device locks, waiting as long as asked",
     "Every VXI-11 operation on a device locked by another session takes no effect and is refused with the locked error, at once or, if it asked to wait, only when its lock timeout has passed without the lock becoming free, otherwise it takes effect as soon as the lock is released; lock and unlock, and a lock requested while opening a link, grant and report exactly what the device's lock allows. A waiting request delays no other client, and one whose connection is lost is given up without effect, together with the locks held through that connection.",
     ["schedules", "histories"], "every interleaving of requests, locks, releases, timeouts and sessions of other protocols",
     "No test has two sessions and a waiting request.",
     [V + "core_service.rs"], [("lock with timeout", V + "core_service.rs device_lock, create_link, LockHandle use in each procedure")],
     [], ["replies and their times under a virtual clock, device effects"], TRUST, "model-based random testing under a virtual clock")
prop("C23", "A VXI-11 abort ends the waiting operation of that link and nothing else",
     "An abort through the asynchronous channel makes the operation in progress on the named link return with the abort error without having any effect, at whatever point of its wait; it affects no other link, no operation that starts later, and an abort of an unknown link is refused.",
     ["schedules", "histories"], "every point at which an abort can arrive, any number of links waiting",
     "Not tested at all; needs an abort during a lock wait.",
     [V + "abort_service.rs", V + "core_service.rs"], [("abort channel", V + "abort_service.rs, core_service.rs select with abort")],
     [("abort", "one-slot channel per link", V + "core_service.rs Link")], ["replies on both channels, device effects"], TRUST, "model-based random testing under a virtual clock")
prop("C24", "VXI-11 service requests reach exactly the links that asked for them",
     "Each time the device requests service, every link with service requests enabled and an interrupt channel gets exactly one interrupt carrying the handle it gave, in order, at the address it named, wherever on the network that is; links without it, destroyed links and disconnected clients get none; an interrupt is sent whole or not at all, one that cannot be sent is lost without harm to later ones once the channel has been replaced; and enabling, disabling, creating and destroying channels report success exactly when the state they ask for was reached.",
     ["histories", "fault_sequences"], "every history of channels created, destroyed and refused, handles enabled and disabled, links destroyed and connections lost",
     "Not tested at all: no test listens for interrupts.",
     [V + "intr_client.rs", V + "core_service.rs"], [("interrupt channel", V + "intr_client.rs"), ("device_enable_srq, create_intr_chan, destroy_intr_chan", V + "core_service.rs")],
     [], ["interrupts received by a virtual client over TCP and UDP"], TRUST, "model-based random testing over a virtual network")
prop("C25", "RPC services answer every call correctly and execute only valid ones",
     "Every complete RPC call to any of the servers gets exactly one reply with its transaction identifier and the right verdict: unknown program, version (with the supported range), procedure, RPC version or authentication, undecodable arguments, or success. Only calls whose arguments decode completely take effect, an incomplete or oversized message never does nor exhausts memory, and no message stops the service for later calls or other clients.",
     ["inputs", "fault_sequences"], "every call header, argument bytes, truncation, fragmentation and order, over TCP and UDP",
     "Unit tests decode a few well-formed values; headers, truncations and fragments are not sampled.",
     ["vxi11/src/common/onc_rpc/mod.rs", "vxi11/src/common/onc_rpc/xdr.rs", "vxi11/src/common/onc_rpc/record.rs", "vxi11/src/common/xdr/basic.rs"],
     [("dispatch", "vxi11/src/common/onc_rpc/mod.rs RpcService::handle_message, serve_*"), ("record marking", "vxi11/src/common/onc_rpc/record.rs"), ("XDR decoding", "vxi11/src/common/xdr/basic.rs")],
     [], ["replies on the wire, device effects, memory in use"], TRUST, "structured fuzzing with an RFC 5531 reference decoder as oracle")
prop("C26", "The static portmapper reports exactly its mappings",
     "Over TCP and UDP and for any number of clients asking at once, the static portmapper answers a port request with the port of the mapping with that program, version and protocol, or 0 if there is none; a dump lists exactly its mappings; and requests to change them do not.",
     ["inputs", "schedules", "configurations"], "every set of mappings (clashing ones included), every query, any number of clients",
     "One test asks for one registered service.",
     ["vxi11/src/server/portmapper.rs", "vxi11/src/common/portmapper/xdr.rs"], [("getport and dump", "vxi11/src/server/portmapper.rs StaticPortMap")],
     [], ["replies on the wire"], TRUST, "random mappings and queries against a reference table")
prop("C27", "The portmapper client returns the portmapper's answer to its own call",
     "Each client operation, whatever the address of the portmapper, sends one well-formed call with a fresh transaction identifier and returns exactly what the portmapper answered to that call, value or error, over TCP and UDP; late, foreign, truncated or misdirected messages are never taken for an answer and never make the client panic or hang when the answer comes.",
     ["inputs", "histories", "fault_sequences"], "every operation, arguments, reply contents, and history of timeouts and late replies",
     "One test performs one exchange with the crate's own server.",
     ["vxi11/src/client/portmapper.rs", "vxi11/src/common/onc_rpc/mod.rs"], [("RPC clients", "vxi11/src/common/onc_rpc/mod.rs UdpRpcClient, StreamRpcClient"), ("operations", "vxi11/src/client/portmapper.rs")],
     [("xid", "identifier of the current call", "vxi11/src/common/onc_rpc/mod.rs")], ["calls on the wire, values returned"], TRUST, "random scripted peer, reference RPC codec as oracle")
prop("C28", "A VXI-11 server is reachable on the ports it was given and announces",
     "For every configuration, the core and abort services listen on exactly the ports configured for them, create-link announces the port the abort service really listens on, and registration with a portmapper announces exactly those ports and fails if the portmapper refuses.",
     ["configurations"], "every combination of ports, order of builder calls, order of start and portmapper behaviour",
     "Tests use one configuration.",
     [V + "mod.rs"], [("VxiServerBuilder and bind", V + "mod.rs")], [], ["bound ports, announced ports, registrations received"], TRUST, "random configurations against a reference")
ALL = ["device/src/lock.rs", "raw/src/server/mod.rs", "telnet/src/server/mod.rs", H + "mod.rs", H + "session/synchronous.rs", H + "session/asynchronous.rs", V + "core_service.rs"]
prop("C30", "One device behind all protocols obeys one lock",
     "When one device is served over raw sockets, telnet, HiSLIP and VXI-11 at once, a command of any client is executed only while the locks held by all other clients allow it, whichever protocol they came through; commands that must wait are executed once, in the order of their client, as soon as the lock or the device is free, and each lock request is granted, refused or kept waiting exactly as the common lock state demands. No client waits for something nobody holds, responses reach only the client that asked, and a client that leaves holds nothing.",
     ["histories", "schedules"], "every mixture of clients of the four protocols, every interleaving of their commands, lock requests, releases, arrivals and departures",
     "No test runs two protocols on one device, and none has two clients that contend for it.",
     ALL, [("common lock and device", "device/src/lock.rs LockHandle, RemoteLockHandle, SharedLock"), ("use by each server", "raw, telnet: process_client; " + H + "session; " + V + "core_service.rs")],
     [("SharedLock", "locks of one device shared by all servers", "device/src/lock.rs")], ["commands executed by the device, replies to every client, reported lock state"], TRUST, "model-based random testing of four servers over a virtual network and scheduler, linearisation search against the lock model")
prop("C31", "Hostile or broken clients do not stop service for others",
     "Whatever some clients send, cut off, reset, leave unread or open in numbers, and whatever errors accepting connections returns, on any of the raw, telnet, HiSLIP and VXI-11 servers of one device, none of the servers panics, stops accepting or keeps the device: clients that behave are served at once, during the attack and after it, and so are new clients.",
     ["inputs", "fault_sequences", "schedules"], "every sequence of garbage, truncation, resets, unread responses, connection floods and accept errors, on any server",
     "No test sends malformed input, resets a connection, or leaves a response unread while somebody else uses the device.",
     ALL, [("accept loops", "raw, telnet: accept, accept_unix; " + H + "mod.rs accept; " + V + "core_service.rs, abort_service.rs serve"), ("sending responses", "raw, telnet: process_client; " + H + "session/synchronous.rs; vxi11/src/common/onc_rpc")],
     [], ["responses to well-behaved clients, commands executed"], TRUST, "structured fuzzing and fault injection over a virtual network, bystander oracle")
prop("C32", "Memory and tasks stay bounded under repeated use",
     "Any use of the raw, telnet, HiSLIP and VXI-11 servers that returns to where it started (clients come, exchange messages, lock, wait, subscribe, are refused or cut off, and go; or a lasting session repeats its requests) leaves neither memory nor running tasks behind, however often it is repeated.",
     ["histories", "fault_sequences"], "every repeatable use of the servers, in particular every way a client can leave, any number of repetitions",
     "No test measures memory or repeats a connection.",
     ALL + ["device/src/status.rs", V + "mod.rs"], [("session and link tables", H + "mod.rs InnerServer; " + V + "mod.rs VxiInner"), ("subscriptions and waiters", "device/src/status.rs Sender; device/src/lock.rs SharedLock::listen")],
     [("sessions, links, senders, waiters", "what a client leaves in shared state", "see mechanism")], ["bytes allocated and tasks running after n and after 7n repetitions"], TRUST, "random workload cycles over a virtual network, allocation and task counters as oracle")
