#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: python3 tools/properties.py writes it."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

LOCK = "device/src/lock.rs"
p("C01", "Lock requests follow one shared/exclusive lock state machine",
  "For every sequence of lock, release and drop operations by any number of clients of a device, each attempt succeeds or is refused (and says which kind of lock stands in the way) exactly as for one lock with these rules: an exclusive lock keeps out everybody else, a shared lock admits exactly those who present the same key, a holder of the shared lock may also take the exclusive one, a client cannot take twice what it holds. Releasing or dropping a client frees exactly what it held and nothing else, a refused or abandoned attempt changes nothing, and the reported lock state always matches.",
  ["histories"], "all operation sequences up to the depth bound over 2-3 clients, two shared keys and the exclusive lock, with device access attempts, through the direct and the remote handle",
  "The unit tests walk six short fixed sequences; the claim is about every history, including upgrades, drops and abandoned waits in between.",
  [LOCK], [("try_acquire/try_release state machine", LOCK+": LockHandle"), ("remote handle", LOCK+": RemoteLockHandle")],
  [("SharedLock", "exclusive flag, shared key and count", LOCK)], ["return values of lock operations", "lock_info, can_lock, has_shared, has_exclusive"])
p("C02", "The device is never handed to a client that is locked out",
  "At most one client at a time has access to the device, and a client's access request (waiting or not) is never granted if, from the moment both the request had been made and the device was free until the grant, another client held a lock that excludes it. Locks that exclude each other are never held at the same time.",
  ["schedules"], "all interleavings up to the deviation bound of 2-3 concurrent clients, each running one of the programs: access, lock-use-release, upgrade, try, abandon, disconnect",
  "The race needs a lock to be granted while another client is already waiting for the busy device; the tests have one fixed two-task schedule with real threads.",
  [LOCK], [("re-check after the device is obtained", LOCK+": async_lock/try_lock")],
  [("device mutex", "who has the device", LOCK)], ["grant of a device guard", "return of a lock request"])
p("C03", "Whoever waits for a lock or for the device gets it once it is available",
  "A client waiting for a lock or for access to the device is eventually served once every lock and access that stands in its way has been given up, whatever the interleaving; no wake-up is lost and no set of waiting clients blocks itself forever.",
  ["schedules"], "all interleavings up to the deviation bound of 2-3 concurrent clients whose programs all give up what they take; at quiescence no task may still be waiting",
  "A lost wake-up needs a release exactly between a failed attempt and the start of waiting; tests do not control that.",
  [LOCK], [("listen before re-trying", LOCK+": async_acquire*, async_lock"), ("notify on acquire and release", LOCK+": notify_release, notify_acquired")],
  [("event", "registered waiters", LOCK)], ["completion of lock and access requests"])
p("C04", "Abandoned lock and access requests leave no trace",
  "A lock or access request that is given up (timeout, abort, disconnect) at any point leaves no lock behind, blocks nobody, swallows no wake-up meant for another waiter, and afterwards a new client can lock and use the device as if the request had never been made. The memory used by a device's lock does not grow with the number of operations performed on it.",
  ["schedules", "histories"], "all interleavings up to the deviation bound of clients that start waiting and give up; every state of the lock, every request that waits in it, operations of others meanwhile and of anybody after it was given up, up to the depth bounds; all cyclic histories up to the length bound, repeated",
  "Tests never cancel a wait in the middle and never repeat a history often enough to see growth.",
  [LOCK], [("release on drop", LOCK+": Drop for LockHandle"), ("pruning of dead listeners", LOCK+": listen")],
  [("event", "registered waiters", LOCK)], ["lock state after all clients left", "live heap"])
ST = "device/src/status.rs"
p("C05", "Status notifications reach every subscriber, in order",
  "A status sent by any clone of the sender reaches every subscriber that had nothing outstanding, and wakes it if it waits; each subscriber sees statuses in sending order and none twice. A subscriber that is slow or has left never delays or disturbs the sender or the other subscribers, and one that has left is forgotten.",
  ["histories", "schedules"], "all sequences of send/subscribe/poll/leave up to the depth bound with 2-3 subscribers; all interleavings of two senders and three subscribers up to the deviation bound",
  "The only test sends one status to two subscribers.",
  [ST], [("broadcast with retain", ST+": send_status")], [("senders", "one bounded queue per subscriber", ST)], ["receiver streams"])
RAW = "raw/src/server/mod.rs"
p("C06", "Raw socket: each complete line is executed exactly once, in order",
  "Whatever the bytes, however they are cut into segments and whatever time passes in between, the device executes exactly the newline-terminated lines a client sent, in order, each once, without the newline and otherwise byte for byte; the responses come back in the same order, complete and newline-terminated, also when the network accepts them in small pieces. An unterminated rest at the end of the stream is never executed. A client that does not read its responses delays nobody else.",
  ["inputs", "fault_sequences"], "all byte strings over a small alphabet up to the length bound, all segmentations, connection end or reset after any byte, short reads and short writes; lines up to 512 KiB with 5 buffer sizes",
  "The tests send one line in one segment.",
  [RAW], [("read_until newline loop", RAW+": process_client")], (), ["Device::execute calls", "bytes sent to the client"])
TN = "telnet/src/server/mod.rs"
p("C07", "Telnet: each complete line is executed exactly once, in order",
  "Whatever the bytes, however they are cut into segments and whatever time passes in between, the device executes exactly the lines a client entered, in order, each once, without the line end (CR LF or a bare LF) and otherwise unchanged, with the telnet editing commands erase-character and erase-line applied. Responses come back in the same order, each complete and followed by CR LF; when the client closes the connection the session ends and an unterminated rest is not executed. A client that does not read its responses delays nobody else.",
  ["inputs", "fault_sequences"], "all byte strings over a small alphabet of data, CR, LF and telnet commands up to the length bound, all segmentations, connection end after any byte; lines up to 512 KiB with 5 buffer sizes",
  "One test logs in once and sends one line in one segment.",
  [TN], [("event loop over parsed telnet events", TN)], (), ["Device::execute calls", "bytes sent to the client"])
p("C08", "Telnet: protocol bytes never mix with data, in either direction",
  "Telnet commands, option negotiation and subnegotiation never reach the device, doubled IAC bytes reach it as one data byte, and any 0xFF byte in a response is sent doubled, so that a client that strips telnet commands sees exactly the device's response. Option requests are answered by agreeing to the supported options and refusing the others, without repetition. No sequence of telnet commands ends the server or another client's session.",
  ["inputs"], "all strings of telnet protocol elements and data up to the length bound, all segmentations; all response bytes",
  "No test sends a telnet command.",
  [TN], [("telnet parser", TN)], (), ["Device::execute calls", "bytes sent to the client"])
ALLSRV = [RAW, TN, "hislip/src/server/mod.rs", "hislip/src/server/session/asynchronous.rs", "vxi11/src/server/vxi11/core_service.rs"]
p("C09", "A client that disappears loses its locks and its place in the queue",
  "Whenever all connections of a client end (orderly or by reset, after any byte of any request, also while a request of it is waiting), every lock it held is released, at the latest once what its last request was waiting for is resolved, and no request of it keeps the device or the lock from others, so that other clients can lock and use the device. An incomplete request is dropped without effect; a complete one already received may still be carried out once. This holds for every protocol.",
  ["crash_points", "fault_sequences"], "for each protocol and each position in a session that locks, waits and uses the device: close or reset there; then another client must be able to lock and use the device",
  "Tests never cut a connection in the middle of a session.",
  ALLSRV, [("lock handle owned by the session", "device/src/lock.rs: Drop for LockHandle"), ("session tear-down", "hislip/src/server/mod.rs, vxi11/src/server/vxi11/core_service.rs")], (), ["lock state after the connection ended", "service to another client"])
p("C10", "Locks hold across protocols",
  "While one client holds a lock on a device, no command, trigger or clear of another client that the lock excludes reaches the device, whichever of the protocols (HiSLIP, VXI-11, raw socket, telnet) each of them uses; such requests wait or are refused, and those that wait are served after the release. (A command the device is already executing when the lock is granted may finish.)",
  ["histories", "schedules"], "all pairs of (locking client and protocol, other client and protocol) with exclusive and shared locks, all operation orders up to the bound",
  "No test has two protocols on one device.",
  ALLSRV, [("shared lock handed to every server", "device/src/lock.rs")], (), ["Device trait calls attributed to clients"])
p("C11", "No input of one client stops a server for the others",
  "Whatever bytes a client sends (malformed, truncated, oversized, out of order or random) and however it ends the connection, no server task panics or loops forever, and a well-behaved client, connected before or after, is served as usual.",
  ["inputs", "fault_sequences"], "for every protocol: all sequences up to the bound of messages from a catalogue of well-formed and malformed messages with boundary values in every header field, each truncated at every byte, ended by close or reset; afterwards a fresh client performs a normal session",
  "Tests only contain well-behaved clients.",
  ALLSRV + ["vxi11/src/common/onc_rpc/mod.rs", "vxi11/src/server/portmapper.rs"], [("error handling around each connection", "serve loops of each server")], (), ["service to another client", "panics"])
p("C12", "Accepting connections survives connection faults",
  "A connection that fails or is reset before or while the server accepts it, or a transient error of accept or of the datagram socket, affects only that connection: the server keeps running, existing clients keep being served and new ones can connect.",
  ["fault_sequences"], "for each server: all sequences up to the bound of good connections, connections reset before accept, transient accept errors and datagram errors",
  "Needs faults at the socket layer that tests cannot inject.",
  [RAW, TN, "hislip/src/server/mod.rs", "vxi11/src/common/onc_rpc/mod.rs", "vxi11/src/server/portmapper.rs"], [("accept loops", "serve/accept functions")], (), ["service to other clients"])
HS = "hislip/src/server/mod.rs"; HSS = "hislip/src/server/session/synchronous.rs"; HSA = "hislip/src/server/session/asynchronous.rs"; HM = "hislip/src/common/messages.rs"
p("C13", "HiSLIP: messages are framed exactly",
  "Every message a client sends is read as one header plus exactly its stated payload, however the bytes are cut into segments and whatever time passes in between, and answered in order; unknown or unsupported messages and messages larger than the server allows are answered with an error and skipped without losing synchronisation or order, a malformed header is answered with a fatal error and ends the session. A message cut short by the end of the connection has no effect, and every message type and control field survives an encode/decode round trip.",
  ["inputs", "fault_sequences"], "all short sequences from a message catalogue, all segmentations of each message, truncation at every byte; all 256 type codes",
  "The HiSLIP tests are skipped entirely without a VISA library.",
  [HM, HS], [("read/write of messages", HM)], (), ["bytes on both channels", "Device::execute calls"])
p("C14", "HiSLIP: a session is established exactly once and is its own",
  "Each accepted synchronous initialisation gets a session id no other live session has; the asynchronous channel joins exactly the session it names, once, and a session serves data only after both channels are initialised. Initialisation out of order, repeated, for an unknown session or sub-address, or beyond the session limit is refused without disturbing any existing session.",
  ["histories"], "all sequences up to the depth bound of initialise, async-initialise (right, wrong and repeated id), data, and disconnect over 2-3 connections",
  "No HiSLIP test runs here, and a test would fix one order of channel set-up.",
  [HS], [("session table", HS+": InnerServer"), ("handshake", HS+": Server::handle_session")], [("sessions", "live sessions by id", HS)], ["initialise responses", "service of data messages"])
p("C15", "HiSLIP: commands and responses arrive whole and are matched",
  "The concatenated payloads of Data messages up to the next DataEnd are executed by the device as one command, exactly once, and the response is sent as messages that respect the maximum message size announced by the client, carry the message id of the command, and end with exactly one DataEnd (also if the response is empty), so that their concatenated payload is exactly the device's response. A trigger reaches the device exactly once. Where a short identification is configured, the command \"*IDN?\" is answered with it, without the device, and otherwise like any other.",
  ["inputs", "histories"], "all ways to split a command over up to 3 Data messages, all response lengths and client message sizes up to the bound, all command sequences up to the depth bound, all segmentations at message level",
  "No HiSLIP test runs here.",
  [HSS], [("buffering until DataEnd", HSS), ("chunking", HSS)], (), ["Device::execute calls", "bytes on the synchronous channel"])
p("C16", "HiSLIP: lock requests answer truthfully and in time",
  "A lock request answers success exactly when the client then holds the lock, failure when it was still unavailable at the end of its timeout (which may be zero), and error only for an invalid request (such as for a lock it already holds); a request made while others hold the lock is granted as soon as it becomes available within the timeout, and meanwhile the session's other traffic and other clients are served. A release answers which kind of lock was freed, or error if none was held, and lock info reports the current state.",
  ["histories", "schedules"], "all sequences up to the depth bound of lock/release/info/data requests by 2-3 clients with zero and non-zero timeouts, with time passing at every point; timeouts of all magnitudes up to 2^32-1 ms; interleavings up to the deviation bound",
  "No HiSLIP test runs here; timing of concurrent clients is not controllable in tests.",
  [HSA, LOCK], [("async lock message", HSA)], (), ["AsyncLockResponse codes", "lock state of the device"])
p("C17", "HiSLIP: device clear discards what was before and restores service",
  "After a device clear is requested, at any moment, the client receives exactly one acknowledgement on the asynchronous channel and, once it has sent its completion, exactly one on the synchronous channel; what the client sends between the acknowledgement and its completion is not executed, an incomplete command from before is discarded, no response sent after the acknowledged clear belongs to a command from before it, and the session then works normally. The device itself is cleared, unless another client's lock forbids it.",
  ["histories", "schedules"], "a device clear at every point of a session with partial data, pending response, stalled response and repeated clears, with all orders of the two channels up to the deviation bound",
  "Needs the two channels in every relative order.",
  [HSS, HSA], [("clear event between the two channels", HSA+", "+HSS)], (), ["clear acknowledgements", "Device::clear calls", "responses after the clear"])
p("C18", "HiSLIP: the channels of a session and different clients never block each other",
  "Every request on the asynchronous channel (status, lock info, remote/local, maximum size, clear) is answered even while the session's synchronous channel is waiting for the device or sending a response the client does not read, except that a lock or remote/local request may have to wait for a lock held by another client; and a client that does not read its responses never keeps other clients from using the device beyond the lock it holds. No combination of requests on the two channels deadlocks.",
  ["schedules"], "all interleavings up to the deviation bound of one synchronous and one asynchronous request of the same session and a request of another client, with and without back-pressure on each channel",
  "Deadlocks between the two channel tasks need particular interleavings and a stalled reader.",
  [HSS, HSA], [("lock order between session state and device", HSS+", "+HSA)], (), ["completion of requests"])
p("C19", "HiSLIP: service requests and status are delivered",
  "Each status the device announces is sent as a service request to every client whose asynchronous channel is connected and which has queried its status since its last service request, exactly once and in order; statuses announced in between are held back until that query or dropped, and never end the session. A status query answers the device's current status byte, whose message-available bit is the session's own, also after a query which the device could not answer.",
  ["histories", "schedules"], "all sequences up to the depth bound of status changes, status queries and data by 1-2 clients",
  "No HiSLIP test runs here.",
  [HSA, ST], [("status receiver in the asynchronous session", HSA)], (), ["AsyncServiceRequest and AsyncStatusResponse messages"])
p("C20", "HiSLIP: remote/local control reaches the device as requested",
  "Each remote/local request is carried out on the device exactly as its control code defines (remote enable, local lockout, go to local and their combinations) and is answered; an unknown code is refused without effect, and a request of a client that is locked out changes nothing on the device until that client may use it. A status query never puts the device into remote while remote is disabled.",
  ["histories"], "all sequences up to the depth bound of the seven codes and invalid codes, by clients with and without the lock",
  "No HiSLIP test runs here.",
  [HSA], [("control code table", HSA)], (), ["Device::set_remote and set_local_lockout calls"])
RPC = "vxi11/src/common/onc_rpc/mod.rs"; RPCX = "vxi11/src/common/onc_rpc/xdr.rs"; REC = "vxi11/src/common/onc_rpc/record.rs"
VC = "vxi11/src/server/vxi11/core_service.rs"
p("C21", "RPC: every call is answered exactly once, correctly",
  "Over TCP (whatever the record fragments, segments and pauses) and UDP, each well-formed call gets exactly one reply, in order, with its own transaction id; unknown program, version and procedure, wrong RPC version and undecodable arguments get the corresponding error reply and the service goes on. Malformed or truncated messages never have an effect and never stop the service for others.",
  ["inputs", "fault_sequences"], "all combinations of header field values from a boundary set, all fragmentations and segmentations of a call, truncation at every byte, over both transports",
  "Unit tests cover two record layouts and single XDR values.",
  [RPC, RPCX, REC], [("call dispatch", RPC), ("record marking", REC)], (), ["reply bytes"])
p("C22", "VXI-11: links live from creation to destruction and belong to one client",
  "A created link has an id no other live link has and works until it is destroyed or its connection ends; every operation on any other id (unknown, destroyed, or of another connection) is refused with the invalid-link error and has no effect. Link creation fails cleanly, without leaving a link or a lock, for an unknown device or a lock that cannot be had in time, and a creation that waits for its lock keeps no other client waiting.",
  ["histories"], "all sequences up to the depth bound of create (with and without lock), destroy, use and disconnect over 2 connections and up to 3 links",
  "The tests create one link per client and always use it correctly.",
  [VC], [("link tables", VC)], [("links", "live links of a connection", VC)], ["error codes", "Device calls"])
p("C23", "VXI-11: written and read data is exact",
  "The bytes of writes up to the one flagged END are executed by the device as one command, exactly once, and reads return exactly the device's response, in order, never more than requested, split as requested by size and termination character; the reason bits report truthfully whether the request size, the termination character or the end of the response ended the read. A read with no response available returns no data and loses nothing, and messages of the announced maximum size and longer are carried whole.",
  ["inputs", "histories"], "all sequences up to the depth bound of writes with/without END and reads with sizes and termination characters around the response length, over several responses",
  "The tests use default sizes and no termination character.",
  [VC], [("device_write/device_read", VC)], [("in_buf/out_buf", "per-link buffers", VC)], ["Device::execute calls", "read results"])
p("C24", "VXI-11: lock operations answer truthfully and in time",
  "Device lock and unlock, and the lock option of link creation, succeed exactly when the link then holds (or gave up) the exclusive lock, and report locked-by-another, not-held or timeout errors otherwise; a request that waits for a lock is served as soon as the lock is free within its lock timeout and refused after it, and never keeps other clients from releasing. An operation without the wait-lock flag on a device locked by another fails at once.",
  ["histories", "schedules"], "all sequences up to the depth bound of lock/unlock/write/trigger/clear by 2 clients with and without wait flag, with time passing at every point; lock timeouts of all magnitudes up to 2^32-1 ms; interleavings up to the deviation bound",
  "One test locks and unlocks with a single client.",
  [VC, LOCK], [("lock_timeout handling", VC)], (), ["error codes", "lock state of the device"])
p("C25", "VXI-11: abort ends exactly the operation in progress",
  "An abort of a link ends the operation of that link that is waiting at that moment, with the abort error, and nothing else: an abort with no operation waiting has no effect on later operations, and an abort of an unknown, destroyed or disconnected link is refused.",
  ["histories", "schedules"], "all sequences up to the depth bound of waiting operations, aborts, link creation/destruction and time; all select orders up to the deviation bound",
  "No test uses the abort channel.",
  ["vxi11/src/server/vxi11/abort_service.rs", VC], [("abort queue of each link", VC)], (), ["error codes on both channels"])
p("C26", "VXI-11: status byte, trigger, clear, remote and local reach the device",
  "A status read returns the device's status with the message-available bit telling whether a response is waiting on that link; trigger, clear, remote and local each reach the device exactly once when the link may use the device, and not at all otherwise, and a clear discards the link's pending input and output. When the device refuses or fails, the operation reports just that: operation not supported, I/O timeout or I/O error.",
  ["histories"], "all sequences up to the depth bound of these operations, writes and reads by 2 clients, with and without locks, with a device that works or fails in each way",
  "Tests exercise one status read and one trigger.",
  [VC], [("device_* procedures", VC)], (), ["Device trait calls", "status results"])
p("C27", "VXI-11: service requests reach exactly the links that enabled them",
  "While a link has service requests enabled and an interrupt channel exists, each status the device announces is sent as one service request on that channel with that link's handle, in whole messages; nothing is sent for links that disabled them, were destroyed or disconnected. Creating and destroying interrupt channels (TCP or UDP, to any host) answers truthfully, and a channel that is closed by the controller, or not read by it, disturbs neither the core channel nor other clients, and can be replaced.",
  ["histories", "fault_sequences"], "all sequences up to the depth bound of interrupt channel creation/destruction, enable/disable, status changes, link destruction and disconnect over TCP and UDP channels, including an unreachable or closing interrupt listener",
  "No test uses an interrupt channel.",
  [VC, "vxi11/src/server/vxi11/intr_client.rs"], [("per-link service request task", VC)], (), ["device_intr_srq calls", "error codes"])
PM = "vxi11/src/server/portmapper.rs"
p("C28", "Port mapper: lookups answer from the table",
  "A port lookup answers the port registered for exactly that program, version and protocol, or 0; a dump lists exactly the registered mappings; procedures the server does not offer get procedure-unavailable; all of it over TCP and UDP alike.",
  ["inputs"], "all tables up to the size bound over a small domain, all lookups over that domain, both transports",
  "The tests query the system rpcbind, not this server.",
  [PM, "vxi11/src/common/portmapper/xdr.rs"], [("static table", PM)], (), ["reply bytes"])
p("C29", "RPC clients accept only the answer to their own call",
  "The port mapper client and the RPC clients encode each call as the RPC standard requires and return exactly the result in the reply that carries their transaction id; replies with another id, error replies, truncated replies and a closed connection never produce a result nor a panic.",
  ["inputs", "fault_sequences"], "all reply sequences up to length 2 from a catalogue (right, wrong id, stale, each error status, truncated at every byte, closed) for each call, over TCP and UDP; arguments and results of 0 to 60000 bytes",
  "Tests talk to a correct rpcbind only.",
  ["vxi11/src/client/portmapper.rs", RPC], [("client call functions", RPC)], (), ["returned results", "encoded calls"])
XB = "vxi11/src/common/xdr/basic.rs"
p("C30", "XDR values survive encoding and never over-read",
  "Every value of every XDR type and VXI-11/RPC message the library exchanges encodes to the standard's form (big-endian, padded to four bytes) and decodes to itself; decoding a truncated or malformed encoding, or a number outside the range of a 16-bit or signed 8-bit field, always fails, without a panic, and never yields a value.",
  ["inputs"], "all values over boundary domains of every exported type, truncation at every byte, all discriminant values in a boundary set",
  "Unit tests check a few values of the basic types.",
  [XB, RPCX, "vxi11/src/common/vxi11/xdr.rs", "vxi11/src/common/portmapper/xdr.rs"], [("XdrEncode/XdrDecode", XB)], (), ["encoded bytes", "decoded values"])
p("C31", "Servers are reachable where they are configured, and announce that place",
  "Each server listens exactly on the address and port it is configured with or given, whatever the order of configuration and start, and on nothing else; an address that cannot be had is reported as an error by that server alone. The asynchronous port announced with every link, and the ports a client finds through the port mapper, are those where a client can create links and abort their operations.",
  ["configurations", "fault_sequences"], "all configurations over a small set of setter orders, ports and addresses, all ways and orders to start the servers, each port taken or free; discovery through the port mapper by TCP and UDP",
  "The tests bind listeners themselves and never use the configured ports.",
  [VC, "vxi11/src/server/vxi11/mod.rs", "vxi11/src/server/vxi11/abort_service.rs", RAW, TN, HS, PM], [("bind functions and builder", VC)], (), ["listening addresses", "announced ports"])

p("C32", "Connection limits hold and lose no slot",
  "The raw and telnet servers serve at most the configured number of clients at once; a client beyond it is left waiting unharmed and is served, with everything it has sent meanwhile, as soon as enough others have left (however they left), in the order of connecting. No slot is ever lost or gained, whatever the clients do and however often they come and go. The other servers likewise serve every client once others leave.",
  ["histories", "schedules"], "all sequences of connect, query, close, reset and half-close by up to two clients more than limits 1 to 3, one after another or at once; 3 clients coming and going concurrently under all interleavings up to the bound; 14 clients at every server",
  "No test connects a second client while the limit is reached, and a lost slot needs a particular end of a connection.",
  [RAW, TN], [("accept loop and its limit", RAW), ("accept loop and its limit", TN)], (), ["executed commands", "received bytes", "live tasks"])
p("C33", "Every request reaches exactly the device it was addressed to",
  "With several devices behind one HiSLIP or VXI-11 server, each session or link acts on exactly the device, and the lock of the device, that was named at its creation, whatever the order of registration and whatever others do; a name that no device has is refused; nothing done to one device is seen by or locks another. A device in a box behaves as the device itself.",
  ["histories"], "all assignments of 3 clients (links on one or several connections) to 3 devices, 3 orders of registration, all sequences of query, trigger, clear, remote, status, lock, unlock and leave to the depth bound; 13 similar names registered and asked for in all combinations; all calls through boxes",
  "The tests have one device per server.",
  [HS, "vxi11/src/server/vxi11/mod.rs", "device/src/lib.rs"], [("device lookup by sub-address", HS), ("create_link device lookup", VC)], (), ["calls of every device", "lock state of every device"])

p("C34", "Serving clients leaks nothing",
  "However many clients have come and gone, whatever they did and however they left, the servers hold no memory, task, connection, session, link or status subscription for those that are gone (at the latest once what their last request was waiting for is resolved): what they hold depends only on the clients connected now. Complete operations repeated on one connection do not make the server hold more either.",
  ["histories"], "every sequence of actions (24 for HiSLIP and VXI-11) up to the depth bound, of visitors that leave in every way or of one client that stays, repeated 200 times at every server, with and without a lock held by another client and status announcements; memory of the servers over the rounds, tasks, and service afterwards",
  "A leak shows only after many rounds of a particular history; no test serves more than a few clients, and none looks at memory.",
  [RAW, TN, HS, VC, "device/src/status.rs", LOCK], [("session table", HS), ("links and sessions", VC), ("receivers of the status sender", "device/src/status.rs")], (), ["allocated bytes", "live tasks", "service of new clients"])

p("C35", "One device behind all servers; the bundled devices do as documented",
  "A device behind several servers is one: what a client does over one protocol (commands, triggers, clears, remote and local) acts on the same device as what others do over theirs, each action as a whole and in one order, and the status it reports (apart from the message-available bit) is the same through HiSLIP and VXI-11 and reflects everything done before. The bundled devices behave as described: EchoDevice returns every command; SimpleDevice answers *IDN?, EVENT (with nothing) and QUERY? in any case and with or without one line feed behind, reverses every other command, and reports remote (bit 7), triggered since the last clear (bit 6) and cleared (bit 5) in its status, which neither reading it nor commands change.",
  ["histories", "schedules"], "every sequence of up to 4 of 22 actions by clients of five servers with one SimpleDevice behind them; up to 5 actions of 3 clients at once under all interleavings up to the bound, checked for an order that explains every answer and the final state; every sequence of calls and every short or altered command on the bundled devices themselves",
  "The tests drive one server with one client, and none looks at the state of the device behind two of them.",
  ["device/src/util.rs", "device/src/lib.rs", RAW, TN, HS, VC], [("SimpleDevice and EchoDevice", "device/src/util.rs"), ("remote/local, trigger, clear", VC)], (), ["answers", "status bytes", "device state"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
