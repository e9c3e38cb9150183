#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))
ARQ, SOCK, SRV, PKT, DT, FRAG = "src/arq.rs", "src/socket.rs", "src/server.rs", "src/packet.rs", "src/datatype.rs", "src/fragment.rs"

prop("C01", "ReliableOrdered: exactly once, in order, intact, eventually",
 "Messages sent ReliableOrdered on an open connection are returned by the peer's recv exactly once each, byte for byte, and in the order in which they were sent, whatever datagrams the network drops, duplicates, delays or reorders, in either direction. As long as both ends stay open and the network delivers some of the retransmissions, every such message arrives within a bounded time.",
 ["fault_sequences", "schedules", "histories"],
 "every assignment of {deliver, drop, duplicate, short delay, long delay} to the datagrams of a connection within the stated deviation bound, every arrival order (with repeats) of a set of datagrams, and every task schedule within the stated deviation bound; both directions; single-frame and fragmented messages mixed",
 "the loss tests draw a few random loss patterns from one generator and never duplicate or reorder a datagram; they cannot enumerate which of data, ACK and NACK is lost at which step",
 [ARQ, SOCK, FRAG],
 [("ordered receive window and flush", "src/arq.rs RecvQ::insert / RecvQ::flush"), ("send queue, RTO and retransmission", "src/arq.rs SendQ::insert/flush/tick/ack/nack"), ("receive, tick and send tasks", "src/socket.rs start_receiver/start_tick/start_sender")],
 [("ordered index window", "next ordered index to hand to the application", "src/arq.rs RecvQ"), ("sent packets", "reliable frames awaiting ACK", "src/arq.rs SendQ")],
 ["RaknetSocket::send", "RaknetSocket::recv"])

prop("C02", "Messages of every size are reassembled byte for byte",
 "A ReliableOrdered message of any length, including every length around a multiple of the negotiated packet payload, is returned by the peer's recv as one message identical to the one sent. This holds for every arrival order and repetition of its fragments, also when fragments of several messages are interleaved, and for every MTU that the handshake can negotiate.",
 ["inputs", "fault_sequences"],
 "every message length up to several fragments for small MTUs and every length around the fragment boundaries for the default MTU; every arrival order with repeats of the fragments of one message and of two interleaved messages; single losses of each fragment",
 "tests send 2000 and 3000 byte messages at one MTU and let fragments arrive in order; boundaries, reordering and interleaving are never reached",
 [ARQ, FRAG, SOCK, SRV],
 [("splitting", "src/arq.rs SendQ::insert"), ("reassembly", "src/fragment.rs FragmentQ/Fragment"), ("MTU negotiation", "src/server.rs listen, src/socket.rs connect")],
 [("partial messages", "fragments by compound id and index", "src/fragment.rs FragmentQ")],
 ["RaknetSocket::send", "RaknetSocket::recv", "datagrams on the wire"])

prop("C03", "Reliable: arrives eventually, intact, and is never invented",
 "Every message sent Reliable on an open connection is returned by the peer's recv at least once, byte for byte and within a bounded time, whatever datagrams the network drops, duplicates, delays or reorders, provided some retransmissions get through. recv never returns such a message more often than datagrams carrying it arrived, and never a message that was not sent.",
 ["fault_sequences", "schedules"],
 "every assignment of {deliver, drop, duplicate, delays} to the datagrams of the exchange within the stated deviation bound, alone and mixed with the other reliabilities",
 "the unit tests deliver Reliable messages only over a loss-free loopback, one at a time",
 [ARQ, SOCK],
 [("retransmission until ACK", "src/arq.rs SendQ::tick/flush/ack"), ("receive queue", "src/arq.rs RecvQ::insert/flush")],
 [("sent packets", "reliable frames awaiting ACK", "src/arq.rs SendQ"), ("pending packets", "frames to hand to the application", "src/arq.rs RecvQ")],
 ["RaknetSocket::send", "RaknetSocket::recv"])

prop("C04", "Sequenced: never stale, never twice, and the newest gets through",
 "Among messages sent with a sequenced reliability, recv never returns a message older than, or equal to, one it already returned. A sequenced message newer than all those that arrived before it is returned when its datagram arrives, and the last ReliableSequenced message sent on an open connection is always returned eventually, unless recv returned a newer sequenced message.",
 ["fault_sequences", "histories", "schedules"],
 "every arrival order with repeats of a set of sequenced datagrams of both kinds, also mixed with other reliabilities, and every fault assignment to the datagrams of a live exchange within the stated deviation bound",
 "the one test that combines sequencing with loss asserts monotonicity on random losses inside a task whose panic is not awaited, and never reorders or duplicates",
 [ARQ, SOCK],
 [("sequenced index comparison", "src/arq.rs RecvQ::insert"), ("sequence numbering", "src/arq.rs SendQ::insert")],
 [("newest sequenced index", "everything below is stale", "src/arq.rs RecvQ")],
 ["RaknetSocket::send", "RaknetSocket::recv"])

prop("C05", "Unreliable: sent once, delivered per arrival, never waits for an ACK",
 "A message sent Unreliable or UnreliableSequenced is put on the wire in exactly one datagram, once, no matter what is acknowledged or lost; it is never retransmitted. When that datagram arrives at an open connection the Unreliable message is returned by recv, intact, once for each arriving copy, and a lost one never delays or alters any other message.",
 ["fault_sequences", "histories"],
 "every subset of acknowledged, unacknowledged and NACKed transmissions and every fault assignment within the stated deviation bound, with unreliable messages before, between and after reliable ones",
 "tests send one unreliable message each way over a lossless loopback and never watch the wire",
 [ARQ, SOCK],
 [("send queue without retransmission for unreliable frames", "src/arq.rs SendQ::flush"), ("receive queue", "src/arq.rs RecvQ::insert")],
 [], ["datagrams on the wire", "RaknetSocket::recv"])

prop("C06", "Exactly what was received is acknowledged; gaps are reported",
 "An open connection answers every well-formed data datagram it receives, including duplicates and ones whose content it discards, with an acknowledgement covering that datagram's number, promptly, and it never acknowledges a number that it has not received. When a datagram's number skips ahead of all earlier ones by more than one, the skipped numbers, and no others, are reported missing in a NACK within two ticks. Neither kind of report exceeds the negotiated MTU.",
 ["histories", "fault_sequences"],
 "every sequence of datagram arrivals (new, duplicate, stale, skipping, multi-frame, each reliability) up to the stated depth, at different spacings in time",
 "test_ackset checks four hand-picked insert sequences on the internal set; no test looks at the ACK and NACK datagrams a connection emits",
 [ARQ, SOCK, PKT],
 [("ACK/NACK bookkeeping", "src/arq.rs ACKSet"), ("ACK sending", "src/socket.rs start_receiver"), ("NACK sending", "src/socket.rs start_tick"), ("ACK/NACK encoding", "src/packet.rs write_packet_ack/write_packet_nack")],
 [("received numbers not yet acknowledged, gaps not yet reported", "sets of ranges", "src/arq.rs ACKSet")],
 ["ACK and NACK datagrams on the wire"])

prop("C07", "Unacknowledged reliable data is retransmitted until acknowledged, then not",
 "While a connection is open, every reliable frame is sent again, under a fresh and larger datagram number, each time its retransmission timeout passes without an acknowledgement of any of its transmissions; that timeout is at least 50 ms and grows by at most a factor of 1.5 per retry. A frame reported missing in a NACK is sent again at the next tick, and once an acknowledgement of any of its transmissions has arrived it is never sent again.",
 ["histories", "fault_sequences"],
 "every assignment of {acknowledge, acknowledge late, acknowledge an old transmission, NACK, stay silent, acknowledge something else} to the successive transmissions of the frames of a short exchange",
 "test_sendq checks two immediate ACKs; the loss tests only see that data got through, not when or how often it was sent",
 [ARQ, SOCK],
 [("RTO estimate and backoff", "src/arq.rs SendQ::update_rto/tick"), ("ACK/NACK handling", "src/arq.rs SendQ::ack/nack"), ("tick", "src/socket.rs start_tick")],
 [("sent packets with all their datagram numbers", "outstanding data", "src/arq.rs SendQ")],
 ["datagrams on the wire"])

prop("C08", "flush returns Ok only once everything sent has been acknowledged",
 "flush returns Ok only if every reliable message accepted by an earlier send on that connection has been acknowledged by the peer, and it does return Ok shortly after the last of those acknowledgements arrives. If the connection is or becomes closed, flush returns ConnectionClosed instead of waiting.",
 ["fault_sequences", "schedules", "histories"],
 "every fault assignment and acknowledgement pattern within the stated bounds, with messages of every reliability outstanding, with a close by either side at each point",
 "test_send_recv_with_flush runs one lossless pattern and its post-close assertions sit in a task whose panic is not awaited",
 [SOCK, ARQ],
 [("flush polling", "src/socket.rs RaknetSocket::flush"), ("queue emptiness", "src/arq.rs SendQ::is_empty")],
 [], ["RaknetSocket::flush", "datagrams on the wire"])

prop("C09", "Closing is prompt, final, visible to both ends and idempotent",
 "After close returns, or the peer's disconnect notification arrives, send and flush on that end return ConnectionClosed, and recv returns the messages already received and then ConnectionClosed, instead of hanging or panicking; calling close again returns Ok. A close, or dropping the socket, at either end makes the other end's connection close too within a few seconds, whichever of the disconnect notifications the network loses, as long as one arrives.",
 ["schedules", "fault_sequences", "histories"],
 "close, double close, drop and peer close at every point of an exchange, with calls in flight, for every schedule and every fault assignment within the stated deviation bounds",
 "tests close connections in one order at one quiet moment; errors inside their spawned tasks are ignored",
 [SOCK, SRV],
 [("close flag and disconnect datagrams", "src/socket.rs close/start_tick/drop_watcher"), ("disconnect handling", "src/socket.rs start_receiver, handle"), ("session removal", "src/server.rs listen/start_session_collect")],
 [("closed flag", "semaphore closed once", "src/socket.rs close_notifier")],
 ["RaknetSocket::send/recv/flush/close", "datagrams on the wire"])

prop("C10", "Idle connections close after 60 s without traffic and not before",
 "A connection on which nothing arrives from the peer for 60 seconds is closed: its calls then return ConnectionClosed and, on a server, its slot is freed. A connection that keeps receiving datagrams from its peer less than 60 seconds apart is never closed by this timeout.",
 ["histories", "fault_sequences"],
 "every sequence of inter-arrival gaps from a set around the limit, for each kind of datagram, on client and server, and peers that fall silent at each stage of a connection",
 "no test waits 60 seconds",
 [SOCK, SRV],
 [("heartbeat check", "src/socket.rs start_tick"), ("heartbeat update", "src/socket.rs start_receiver")],
 [("last arrival time", "time of the last datagram from the peer", "src/socket.rs last_heartbeat_time")],
 ["RaknetSocket::send/recv/flush", "datagrams on the wire"])

prop("C11", "The handshake yields exactly one working connection per client",
 "When a client connects to a listening server, connect returns within a bounded time and the server's accept returns exactly one socket for that client, with that client's address as its peer, whatever handshake datagrams are dropped, duplicated, delayed or reordered. Messages sent over that pair of sockets straight afterwards flow in both directions, and connect fails with an error instead of hanging if the server goes away after it answered.",
 ["fault_sequences", "schedules"],
 "every assignment of {deliver, drop, duplicate, short delay, long delay} to the handshake datagrams within the stated deviation bound, every task schedule within the stated deviation bound, one and two clients at once",
 "every test performs the handshake on a lossless loopback with one schedule",
 [SOCK, SRV, PKT],
 [("client handshake loops", "src/socket.rs connect_with_version"), ("server handshake", "src/server.rs listen"), ("connected handshake", "src/socket.rs handle")],
 [("sessions", "one entry per connected address", "src/server.rs sessions")],
 ["RaknetSocket::connect", "RaknetListener::accept"])

prop("C12", "Protocol versions are negotiated and reported truthfully",
 "A client speaking a supported protocol version connects; one speaking any other version is refused with an incompatible-version reply, its connect returns NotSupportVersion, and no connection is accepted for it. The version reported by the accepted socket, by the connecting socket, and by the listener for that peer is the version the client announced.",
 ["inputs", "histories"],
 "all 256 version bytes, from fresh addresses and from addresses that announced another version before, in every order of two announcements, with handshake packets lost or duplicated",
 "no test uses a version other than the default",
 [SRV, SOCK, PKT],
 [("version check", "src/server.rs listen"), ("version refusal", "src/socket.rs connect_with_version")],
 [("announced versions", "address to version", "src/server.rs version_map")],
 ["RaknetSocket::connect_with_version", "RaknetSocket::raknet_version", "RaknetListener::get_peer_raknet_version"])

prop("C13", "Every unconnected ping is answered with the current MOTD",
 "While a listener is listening, every well-formed unconnected ping from any address, connected or not, is answered with one pong echoing the ping's time and carrying the listener's identifier and its current MOTD, including one set after listening began; a datagram that is cut short or has a wrong magic is no ping and is not answered. RaknetSocket::ping returns that MOTD unchanged and the measured round-trip time, also when pings or pongs are lost.",
 ["inputs", "fault_sequences", "histories"],
 "both ping kinds, a set of MOTD lengths and encodings, before and after MOTD changes, with sessions in every state, with every fault assignment to pings and pongs within the stated bound and several network delays",
 "the only ping test is commented out",
 [SRV, SOCK, PKT],
 [("pong reply", "src/server.rs listen"), ("ping client", "src/socket.rs ping"), ("MOTD", "src/server.rs set_motd/set_full_motd/get_motd")],
 [("motd", "current text", "src/server.rs RaknetListener")],
 ["RaknetSocket::ping", "pong datagrams on the wire"])

prop("C14", "No datagram from any stranger can take a server down",
 "Whatever datagrams arrive from whatever addresses (empty, truncated, malformed, out of protocol order, with hostile field values), the listener keeps answering pings, accepting new clients and serving its established connections, and nothing panics. A stranger's malformed datagrams create no connection.",
 ["inputs", "histories"],
 "all datagrams of up to 2 bytes, every truncation and every single-byte substitution from a hostile value set of each valid packet kind, every pair of datagrams from a hostile menu, in each handshake state of the sending address",
 "tests only ever feed well-formed packets from a cooperating peer",
 [SRV, DT, PKT, SOCK],
 [("datagram dispatch", "src/server.rs listen"), ("bounds-checked reading", "src/datatype.rs RaknetReader"), ("packet parsing", "src/packet.rs read_packet_*")],
 [], ["RaknetListener::accept", "pong datagrams", "RaknetSocket::recv on other connections"])

prop("C15", "Malformed data on a connection is ignored and does not break it",
 "When a malformed or hostile datagram (truncated, undecodable, unknown kind, absurd ACK/NACK, inconsistent fragment fields, empty message) arrives on an established connection, on the client or on the server side, nothing panics. Unless it is a valid disconnect the connection keeps working: messages sent afterwards in either direction are delivered as their reliability promises, and recv never returns data the peer did not send. A connect that is under way likewise neither panics nor hangs.",
 ["inputs", "histories"],
 "all datagrams of up to 2 bytes, every truncation and every single-byte substitution from a hostile value set of each valid connected packet kind, and every pair from a hostile menu, at different moments of an exchange, on both sides",
 "tests only ever feed well-formed packets from a cooperating peer",
 [SOCK, ARQ, FRAG, DT, PKT],
 [("datagram dispatch", "src/socket.rs start_receiver/handle"), ("frame parsing", "src/arq.rs FrameVec::new"), ("reassembly", "src/fragment.rs"), ("bounds-checked reading", "src/datatype.rs RaknetReader")],
 [], ["RaknetSocket::send/recv/flush"])

prop("C16", "Connections are isolated from each other and from strangers",
 "Data sent by one peer is returned only by the socket connected to that peer. What one client does, whether closing, vanishing, misbehaving, flooding or not being read by the application, does not stop, delay or alter another client's connection, and datagrams from any address other than the peer's never affect a connection.",
 ["histories", "fault_sequences", "schedules"],
 "every history up to the stated depth of two clients' actions (send, close, drop, fall silent, reconnect, hostile datagram, flood, unread messages) interleaved with the other client's traffic, and every kind of datagram injected from a third address to client and server",
 "every test has exactly one client per server",
 [SRV, SOCK],
 [("session routing by address", "src/server.rs listen"), ("source filtering", "src/socket.rs connect_with_version")],
 [("sessions", "address to session channel", "src/server.rs sessions")],
 ["RaknetSocket::recv", "RaknetSocket::send"])

prop("C17", "Closing a listener completes, ends every session and frees the port",
 "RaknetListener::close returns within a bounded time whatever the listener is doing: not yet listening, idle, in the middle of handshakes, with connections accepted, not yet accepted, or ending. Afterwards every connection of that listener is closed at both ends, accept returns an error, the address can be bound again, and repeated close calls return Ok, as no call on a closed listener panics or hangs; dropping the listener also ends all its connections and frees the address.",
 ["schedules", "histories", "fault_sequences"],
 "close and drop at every point of handshakes, traffic and disconnects of up to two clients, with every schedule and every fault assignment within the stated deviation bounds",
 "test_raknet_server_close closes one quiet server with one accepted connection",
 [SRV, SOCK],
 [("close and drop", "src/server.rs close/drop_watcher"), ("session collection", "src/server.rs start_session_collect"), ("listen loop", "src/server.rs listen")],
 [("close flag", "semaphore closed once", "src/server.rs close_notifier"), ("sessions", "address to session", "src/server.rs sessions")],
 ["RaknetListener::close/accept/bind", "RaknetSocket::recv"])

prop("C18", "One connection can be used from many tasks at once",
 "When several tasks use the same connection at the same time (sending with any reliability, receiving, flushing, closing), no call panics or hangs, every message whose send returned Ok on a connection that stays open is treated as its reliability promises, and each task's ReliableOrdered messages arrive in the order that task sent them. This holds on single-threaded and multi-threaded runtimes.",
 ["schedules", "programs"],
 "every task schedule within the stated deviation bound, including switches inside calls as on a multi-threaded runtime, of small programs of two to three tasks with one to three calls each",
 "tests drive each connection from one task",
 [SOCK, ARQ],
 [("locks around the queues", "src/socket.rs send/flush/recv/close"), ("worker tasks", "src/socket.rs start_receiver/start_tick/start_sender"), ("drop watcher", "src/socket.rs drop_watcher")],
 [("send queue, receive queue, close flag", "shared between tasks", "src/socket.rs RaknetSocket")],
 ["RaknetSocket::send/recv/flush/close"])

prop("C19", "Every emitted datagram is well-formed and within the MTU",
 "Every datagram the library emits, in whatever state and with whatever losses, decodes completely under the RakNet wire format as an independent decoder reads it: packet kind, magic, byte order, bit lengths, record counts, fragment headers and addresses. Data datagrams never exceed the negotiated MTU, each carries a new number larger than all earlier ones of that connection, and reliable, ordered and sequenced indexes are assigned consecutively in the order of the send calls.",
 ["histories", "inputs", "fault_sequences"],
 "every datagram emitted in every execution explored for the scenarios of this check: all reliabilities, sizes around all boundaries, retransmissions, NACKs, handshakes, pings, refusals, disconnects",
 "two captured packets are decoded by tests; nothing checks what is emitted",
 [ARQ, PKT, DT, SOCK, SRV],
 [("frame encoding", "src/arq.rs FrameSetPacket::serialize"), ("packet encoding", "src/packet.rs write_packet_*"), ("primitive encoding", "src/datatype.rs RaknetWriter")],
 [("number and index counters", "next values", "src/arq.rs SendQ")],
 ["datagrams on the wire"])

prop("C20", "send validates its argument, and a rejected send has no effect",
 "send returns PacketHeaderError for an empty message or one whose first byte is not 0xfe, and PacketSizeExceedMTU for a message larger than the negotiated MTU minus 60 with any reliability but ReliableOrdered; every other message on an open connection is accepted. A rejected send puts nothing on the wire and does not disturb messages sent before or after it.",
 ["inputs", "histories"],
 "every first byte, every length around zero and around the MTU limit, for every reliability and several MTUs, each as a rejected or accepted call between other messages",
 "no test makes a send call that must be rejected",
 [SOCK, ARQ],
 [("argument checks", "src/socket.rs send"), ("size checks", "src/arq.rs SendQ::insert")],
 [], ["RaknetSocket::send", "datagrams on the wire", "RaknetSocket::recv"])

prop("C21", "IPv4 and IPv6 peers work alike and addresses survive encoding",
 "Clients and servers connect and exchange data over IPv4 and over IPv6. The addresses carried in handshake packets are exactly those of the endpoints they describe, for every address and port, as an independent decoder of the RakNet address format reads them, and the address fields of a peer's packets are read back without disturbing the fields that follow.",
 ["inputs", "configurations"],
 "a set of IPv4 and IPv6 addresses covering every byte position and extreme values, and extreme ports, as client address and as server address",
 "every test uses 127.0.0.1",
 [DT, PKT, SRV, SOCK],
 [("address encoding and decoding", "src/datatype.rs write_address/read_address"), ("socket binding", "src/socket.rs connect_with_version/ping")],
 [], ["RaknetSocket::connect/peer_addr/local_addr", "handshake datagrams on the wire"])

prop("C22", "A finished connection leaves nothing behind and its address can return",
 "When a connection has ended, for whatever reason, all its background work stops and its resources (tasks, socket, server slot) are released within a bounded time. A client can then connect again from the same address and get a new working connection that nothing left over from the old one disturbs.",
 ["histories", "schedules", "fault_sequences"],
 "every way of ending (client close, server close, drop of either, disconnect notification, timeout, connect abandoned) at every stage, followed by a reconnect from the same address after every delay from a set, with every schedule and fault assignment within the stated deviation bounds",
 "tests never look at resources and never reconnect from the same address",
 [SOCK, SRV],
 [("task exits", "src/socket.rs start_receiver/start_tick/start_sender/drop_watcher"), ("session collection", "src/server.rs start_session_collect")],
 [("sessions", "address to session", "src/server.rs sessions")],
 ["live tasks and sockets of the runtime", "RaknetListener::accept", "RaknetSocket::recv"])

prop("C23", "Control messages are answered and never reach the application",
 "On an open connection a connected ping is answered with a connected pong echoing its timestamp, a connection request is answered with an acceptance echoing the request's time and naming the client's address, and an acceptance is answered with a new-incoming-connection message. None of these control messages, nor pongs or disconnects, is ever returned by recv, and every application message that arrives is.",
 ["histories", "inputs", "fault_sequences"],
 "every sequence up to the stated depth of control and application messages, under every reliability, with repeats and in one or several frames per datagram, on server and client",
 "tests never look at control messages",
 [SOCK, PKT],
 [("control message handling", "src/socket.rs handle"), ("control packet encoding", "src/packet.rs")],
 [], ["datagrams on the wire", "RaknetSocket::recv"])

prop("C24", "A slow reader loses nothing",
 "If the application does not call recv for a while, no ReliableOrdered or Reliable message that was acknowledged is lost: when it reads again it gets every message, ordered ones in order. The peer's and this end's connection stay usable afterwards, and closing while messages are unread ends the connection cleanly.",
 ["histories", "schedules"],
 "unread backlogs of every size in a set spanning all internal queue capacities, on client and server, with reading resumed or the connection closed from either side afterwards, and schedules within the stated deviation bound",
 "tests read every message as soon as it arrives",
 [SOCK, SRV],
 [("bounded queues with backpressure", "src/socket.rs connect_with_version/from/handle, src/server.rs listen")],
 [("user data queue", "messages received and not yet read", "src/socket.rs user_data_receiver")],
 ["RaknetSocket::recv", "RaknetSocket::send"])

prop("C25", "Long-lived connections survive counter wrap-around",
 "A connection that lives long keeps delivering messages as promised, without panics: also when and after the 16-bit identifiers of split messages, the 24-bit datagram numbers and the 24-bit reliable, sequenced and ordered indexes on the wire run out and start again.",
 ["histories"],
 "histories that cross the end of each 16-bit and 24-bit counter, with every loss, duplicate, late arrival and schedule within the stated deviation bound around it",
 "the longest test sends 100 messages",
 [ARQ, FRAG],
 [("counters", "src/arq.rs SendQ::insert/flush"), ("window comparisons", "src/arq.rs RecvQ::insert/flush, ACKSet::insert, SendQ::ack"), ("reassembly key", "src/fragment.rs FragmentQ")],
 [("counters", "next datagram number, reliable/ordered/sequenced index, compound id", "src/arq.rs SendQ")],
 ["RaknetSocket::send/recv"])

prop("C26", "A call that is given up harms nothing else",
 "A call whose future is dropped before it completes (a timeout, the losing branch of a select) harms nothing else: a given-up recv or accept loses no message and no connection, a given-up flush has no effect, a given-up send or close of a connection leaves every other message and call as promised, and after a given-up close of a listener another close completes and frees the address.",
 ["schedules", "histories", "fault_sequences"],
 "every call of the API given up at every poll, wake-up and a set of delays, repeatedly and by several tasks, while messages, connections and acknowledgements arrive at every offset of a set, with every fault and schedule within the stated deviation bound",
 "tests await every call to its end",
 [SOCK, SRV],
 [("recv and send", "src/socket.rs recv/send/flush/close"), ("accept and close", "src/server.rs accept/close")],
 [("bursts to send", "datagrams taken from the send queue", "src/socket.rs sender")],
 ["RaknetSocket::recv/send/flush/close", "RaknetListener::accept/close", "datagrams on the wire"])

prop("C27", "Setting the system clock disturbs no connection",
 "When the system's wall clock is set forwards or backwards, by any amount and at any time, nothing changes but the time shown in packets: messages arrive and are retransmitted as promised, live connections stay open and dead ones still time out after 60 s, handshakes complete or fail in time, and ping reports the true round trip.",
 ["inputs", "histories", "fault_sequences"],
 "steps of the wall clock by 60 ms to ten years in both directions, alone and undone again, at every instant of a grid over handshake, traffic, silence and ping, with the network's faults within the stated deviation bound",
 "tests cannot set the clock",
 [ARQ, SOCK, SRV, "src/utils.rs"],
 [("clock", "src/utils.rs cur_timestamp_millis"), ("timeouts", "src/arq.rs SendQ::tick, src/socket.rs start_tick, src/server.rs start_session_collect")],
 [("last_heartbeat_time", "when the peer was last heard", "src/socket.rs, src/server.rs")],
 ["RaknetSocket::send/recv/ping/connect", "datagrams on the wire"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
