import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
S="yamux/src/"
p("C01","Frame headers are coded and decoded exactly as the yamux specification says",
  "Every frame header is put on the wire as the 12 bytes the yamux specification prescribes: version 0, type (data 0, window update 1, ping 2, go away 3), 16-bit flags, 32-bit stream identifier and 32-bit length, all big endian. Any 12 bytes are decoded to exactly the header they denote, and to an error exactly when the version is not 0 or the type is unknown. The frames the library builds itself (data, window update, ping, close, the three kinds of go away) carry the type, flags, identifier and length that the specification gives them.",
  ["inputs"],"all 2^96 headers; all arguments of every constructor",
  "The unit test round-trips random headers through the library's own encoder and decoder, so a mistake made symmetrically in both passes, and it never looks at the bytes or at malformed input.",
  [S+"frame/header.rs",S+"frame.rs"],[("encode / decode",S+"frame/header.rs"),("header constructors and flag setters",S+"frame/header.rs")],observe=["bytes on the socket"])
p("C02","The frame reader turns any byte stream into exactly its frames",
  "However the peer's bytes are cut into reads, the frames handed on are exactly the ones encoded in the byte stream, in order, each with its complete body, and bytes received before a wait are never lost or read twice. A data frame that announces more than 1 MiB is refused without allocating memory for it, and an undecodable header is an error. The end of the input between two frames is a clean end, in the middle of a frame it is an unexpected-end-of-file error.",
  ["inputs","schedules"],"all byte streams, all ways to split them into reads, waits and failures, every position inside a frame",
  "Tests read from in-memory pipes and TCP sockets that deliver frames in few pieces; partial headers, waits in the middle of a frame, truncated input and sizes around the limit are hardly ever hit.",
  [S+"frame/io.rs"],[("ReadState machine in poll_next",S+"frame/io.rs"),("MAX_FRAME_BODY_LEN",S+"frame/io.rs")])
p("C03","The frame writer puts exactly the queued frames on the socket",
  "Whatever part of the data the socket takes at a time, the bytes written are exactly the queued frames' headers and bodies, in order, each byte once. The writer reports that it is ready, flushed or closed only when everything queued before was handed over, and it flushes or closes the socket only then. A socket that takes nothing is a write-zero error, one that claims to have taken more than it was given is an error now and for every later write.",
  ["inputs","schedules","fault_sequences"],"all frames, all patterns of partial writes, waits and failures of the socket, every position inside a frame",
  "Tests use sockets that take whole frames or a handful of random patterns; a wait or short write at one particular byte of a header or body is not sampled.",
  [S+"frame/io.rs"],[("WriteState machine in poll_ready / start_send / poll_flush / poll_close",S+"frame/io.rs")])
p("C04","A stream delivers the peer's bytes in order, each once",
  "The bytes of the data frames received for a stream are what its reader gets: in order, each byte exactly once, for every mix of body sizes and read-buffer sizes, whether it is read as bytes or as packets. A read that returns n bytes takes n bytes off the buffered data and no other operation on the stream removes or changes buffered data. The end of the stream is reported only when all buffered data was read (or, if reading after close is switched off, when the stream is closed).",
  ["inputs","histories"],"all sequences of bodies and reads, all stream states",
  "Round-trip tests use read buffers that are larger than, or divide, the chunks; partly consumed chunks, empty bodies and mixed packet/byte reads are not covered.",
  [S+"chunks.rs",S+"connection/stream.rs",S+"connection.rs"],[("Chunks / Chunk cursor",S+"chunks.rs"),("poll_read / poll_next",S+"connection/stream.rs"),("on_data appends to the buffer",S+"connection.rs")],
  state=[("buffer","received and not yet read bytes","connection/stream.rs Shared")])
p("C05","A writer never sends more than the credit its peer granted",
  "A write on a stream sends one data frame whose body is a prefix of the caller's bytes, no longer than the remaining credit and the configured frame size, and reduces the credit by exactly that length; with no credit left it waits and sends nothing. Credit starts at 256 KiB (plus what the opening window update of the peer adds) and grows by exactly what each window update for that stream says. Nothing else changes it.",
  ["inputs","histories"],"all credits, write sizes, configurations and stream states; all inbound frames",
  "Tests transfer data between two instances of the library, which stay consistent with each other even if both miscount; a strict peer is never simulated.",
  [S+"connection/stream.rs",S+"connection/stream/flow_control.rs",S+"connection.rs"],[("poll_write: min(credit, len, split size), consume_send_window",S+"connection/stream.rs"),("on_window_update / increase_send_window_by",S+"connection.rs")],
  state=[("send window","credit left","connection/stream/flow_control.rs")])
p("C06","A peer that sends more than it was allowed to is cut off",
  "A data frame whose body exceeds the stream's remaining receive window is answered with a protocol-error go away and none of its bytes is buffered; any other data frame for a known stream (unless it resets the stream or would open it again) reduces the window by exactly its length and is buffered. The first body of a new stream may not exceed 256 KiB. Hence the bytes buffered for a stream never exceed its window, whatever the peer sends; a window update that would overflow the credit is a protocol error as well.",
  ["inputs","histories"],"all inbound frames in all stream states, windows and buffer fill levels",
  "Both ends of the tests are well behaved, so the refusing branches are never taken and an off-by-one in the window check cannot show.",
  [S+"connection.rs",S+"connection/stream/flow_control.rs"],[("on_data: consume_receive_window before buffering",S+"connection.rs"),("on_window_update: overflow check",S+"connection.rs")],
  state=[("receive window","what the peer may still send","connection/stream/flow_control.rs")])
p("C07","The receive window is refilled exactly, and grows only within the limits",
  "When the application has read at least half of a stream's window, and not before, reading sends one window update whose credit is exactly what the stream's own account was raised by, so that unread data plus the peer's credit is again the full window. The window doubles only if it was used up within two measured round trips, is never reduced, and the windows of all streams together never grow beyond the configured connection limit (each stream keeps its 256 KiB). A stream that goes away gives its share back.",
  ["inputs","histories","configurations"],"all windows, buffer fill levels, clock readings, round-trip times, limits and shares of other streams",
  "The unit test runs random values through the function's own debug assertions; it does not check the amounts, the moment, or the interplay of several streams with one limit.",
  [S+"connection/stream/flow_control.rs",S+"connection/stream.rs"],[("next_window_update",S+"connection/stream/flow_control.rs"),("Drop for FlowController",S+"connection/stream/flow_control.rs"),("send_window_update",S+"connection/stream.rs")],
  state=[("accumulated_max_stream_windows","sum of what all windows exceed 256 KiB by","connection.rs Active")])
p("C08","Stream states follow the yamux life cycle",
  "A stream is open, half closed by us, half closed by the peer, or closed; a FIN or a local close moves it along these states, a reset closes it, and it never moves back. An acknowledgement from the peer marks an open stream as acknowledged and never revives a closed side. Writing is possible exactly until we close or the stream is reset, reading exactly until the peer's FIN or a reset (buffered data can still be read).",
  ["inputs","histories"],"all stream states times all inbound frames, flag combinations and local calls",
  "Tests walk the usual path open, write, close; FIN after RST, ACK after FIN, combined flags and simultaneous close are not covered.",
  [S+"connection/stream.rs",S+"connection.rs"],[("Shared::update_state",S+"connection/stream.rs"),("on_frame / on_data / on_window_update",S+"connection.rs"),("poll_close, poll_write, poll_read",S+"connection/stream.rs")],
  state=[("State","life cycle of a stream","connection/stream.rs")])
p("C09","An inbound stream is admitted exactly when the protocol and the limits allow it",
  "A data or window update frame that carries SYN opens a new inbound stream exactly if its identifier is not zero, has the peer's parity and is not in use, and fewer streams than the configured maximum exist; any other SYN ends the connection with a go away and creates nothing. The new stream has that identifier, acknowledges the opening on its first frame, has the standard windows (plus the credit of the opening window update) and holds the body that came with it. Frames without SYN never create a stream.",
  ["inputs","histories","configurations"],"all inbound frames, both roles, all limits and numbers of streams",
  "Tests open streams through the library, which never produces a wrong parity, a reused or zero identifier, or a SYN beyond the limit with these combinations of flags.",
  [S+"connection.rs"],[("on_data / on_window_update SYN branches",S+"connection.rs"),("is_valid_remote_id, make_new_inbound_stream",S+"connection.rs")])
p("C10","Outbound streams get fresh identifiers and respect the limits",
  "Opening a stream gives it an identifier of our parity that was never used before on the connection, in increasing order (clients from 1, servers from 2), and fails when identifiers are used up or the configured number of streams exists. While 256 outbound streams are not yet acknowledged, opening waits and the task is registered for wake-up. Opening a stream changes no other stream, and the connection is told about it.",
  ["histories","configurations"],"all identifiers in use, numbers of streams, limits and states of the other streams, both roles",
  "Tests open a few hundred streams; exhaustion of identifiers and mixed acknowledged/closed/inbound streams in the backlog are out of reach.",
  [S+"connection.rs"],[("poll_new_outbound, next_stream_id, ack_backlog",S+"connection.rs")],
  state=[("next_id","next outbound identifier","connection.rs Active")])
p("C11","The first frame of a stream opens or accepts it, and no later one does",
  "The first frame sent for a stream that we opened carries SYN, the first frame sent for a stream that the peer opened carries ACK, and no later frame of the stream carries either. This holds whichever call sends it: a write, a window update caused by reading, or a close. A call that fails or has to wait sends nothing and keeps the flag for the next one. (A stream that is dropped before it sent anything only gets the reset of C12.)",
  ["histories","schedules"],"all stream states and flags, all calls, all states of the channel to the connection",
  "Tests start streams by writing; opening by reading or by closing, and a first call that has to wait, are special orders they do not produce.",
  [S+"connection/stream.rs"],[("add_flag, poll_write, send_window_update, poll_close",S+"connection/stream.rs")],
  state=[("flag","SYN or ACK still due","connection/stream.rs Stream")])
p("C12","Closing or dropping a stream tells the peer once, after all of its data",
  "Closing a stream sends exactly one FIN for it, after everything written to it before; closing again sends nothing. When a stream is dropped, all it has queued is sent first, then the peer gets a reset if the stream was still open, a FIN if only the peer had finished, and nothing if we had finished already. The connection then forgets the stream, wakes its parked tasks and leaves all others alone.",
  ["histories","schedules"],"all stream states, all contents of the stream's queue, all other streams",
  "Whether a FIN is sent twice, or a reset overtakes data, depends on the order of close, drop and the connection's polling, of which tests see one or two.",
  [S+"connection/stream.rs",S+"connection.rs",S+"tagged_stream.rs"],[("poll_close",S+"connection/stream.rs"),("on_drop_stream",S+"connection.rs"),("TaggedStream: None once after the last command",S+"tagged_stream.rs")])
p("C13","Pings are answered, and only an awaited pong is believed",
  "Every ping for the session or a known stream is answered with one pong that carries the same value, and no other frame is. A pong is accepted only if it carries the value of the one ping that is outstanding, which then yields the round-trip time; any other pong ends the connection with a protocol error and changes nothing. At most one ping is outstanding, pings have successive values, and the next one is sent no earlier than ten seconds after a pong.",
  ["inputs","histories"],"all ping and pong values, all clock readings, every state of the estimator",
  "Tests exchange pings between two correct ends; wrong, repeated or unsolicited pongs are not sent.",
  [S+"connection.rs",S+"connection/rtt.rs"],[("on_ping",S+"connection.rs"),("next_ping / handle_pong",S+"connection/rtt.rs")],
  state=[("RttState","awaiting a pong, or waiting for the next ping","connection/rtt.rs")])
p("C14","A connection reports its end once and stays closed",
  "Polling for inbound streams yields each new stream; the end of the connection is reported as end, an error is reported once, and every later poll answers end. Polling for an outbound stream yields the stream or the error that ended the connection, and 'closed' ever after. Closing completes only after the socket was closed or failed, closing again succeeds at once, and no order of these calls panics or leaves the connection unusable.",
  ["histories","fault_sequences"],"all three calls in all states of the connection, all outcomes of the layers below",
  "Tests poll until the first error and stop; calls after the end, calls while closing, and failures while closing are not exercised.",
  [S+"connection.rs",S+"connection/closing.rs",S+"connection/cleanup.rs"],[("poll_next_inbound / poll_new_outbound / poll_close state machine",S+"connection.rs")],
  state=[("ConnectionState","active, closing, cleanup, closed","connection.rs")])
p("C15","A task that waits is woken when it can make progress",
  "A stream call that returns pending has registered its task: for reading until data, FIN, reset or the end of the connection arrives, for writing until credit, a reset or room in the queue arrives. Whenever an inbound frame brings one of these, the parked task is woken; a task that waits to open a stream is woken whenever an outbound stream is acknowledged or ends. A stream's command wakes the connection's task.",
  ["schedules","histories"],"all states, parked tasks, calls and inbound frames",
  "A lost wake-up needs one particular order of parking and event; tests that hang only rarely, or whose executors poll too often, do not notice.",
  [S+"connection.rs",S+"connection/stream.rs"],[("reader / writer wakers",S+"connection/stream.rs"),("wake-ups in on_data, on_window_update, on_drop_stream",S+"connection.rs"),("wake_new_outbound_stream",S+"connection.rs")],
  state=[("reader, writer","parked tasks of a stream","connection/stream.rs Shared"),("new_outbound_stream_waker","task waiting to open a stream","connection.rs Active")])
p("C16","No input from the peer makes a connection panic or lose track of a stream",
  "Whatever frames a peer sends, in whatever state, handling them never panics and never overflows an account. A stream that is created is registered both to receive frames and to send commands, under the same identifier, or not at all. The unread data of every stream stays within its window and the number of streams within the configured maximum.",
  ["inputs","histories"],"all inbound frames in all states that satisfy the invariants (which are shown to be preserved)",
  "Tests send well-formed traffic; a panic needs a malformed or ill-timed frame.",
  [S+"connection.rs",S+"frame/header.rs"],[("on_frame and everything it calls",S+"connection.rs"),("decode",S+"frame/header.rs")])
p("C17","Configurations that starve streams are refused",
  "A configuration whose connection-wide receive window is below 256 KiB times the maximum number of streams is refused by whichever setter would create it, in whichever order they are called. Every other value is accepted, sets exactly what it says and leaves the other settings alone. The defaults are the documented ones.",
  ["configurations"],"all setter calls with all arguments (below 2^46 streams) on all accepted configurations",
  "No test calls the setters with inconsistent values.",
  [S+"lib.rs"],[("set_max_connection_receive_window / set_max_num_streams",S+"lib.rs")])
p("C18","Closing or losing a connection ends all of its streams",
  "When a connection is closed, fails or is dropped, every one of its streams is closed and every task parked on one of them or waiting to open one is woken; data that was received can still be read. An orderly close first sends what was already queued, by the connection and by the streams, in order, then a go away, and then closes the socket; afterwards streams accept no more writes. After an error nothing more is sent and the error is reported.",
  ["histories","fault_sequences","schedules"],"all states of the streams, all parked tasks, all queued frames, all patterns of the socket",
  "A task left hanging after a close shows only if it was parked at that moment; tests close idle connections.",
  [S+"connection.rs",S+"connection/closing.rs",S+"connection/cleanup.rs"],[("drop_all_streams",S+"connection.rs"),("Closing",S+"connection/closing.rs"),("Cleanup",S+"connection/cleanup.rs")])
p("C19","Frames for one stream never touch another",
  "An inbound frame changes no stream but the one it names: state, windows, buffered data and parked tasks of every other stream stay as they are. A data or window update frame for an unknown stream that does not open one is ignored. No inbound frame removes a stream from the connection.",
  ["inputs","histories"],"all inbound frames, all other streams in all states",
  "Tests compare what each stream received in total; a disturbance of another stream that happens to be harmless in their schedule passes.",
  [S+"connection.rs"],[("lookup by identifier in on_data, on_window_update, on_frame",S+"connection.rs")])
p("C20","The connection sends what it is asked to send, once and in order",
  "Every frame a stream asks for, every pong and every go away is sent exactly once; the frames of the streams go out in the order in which the connection took them. The connection waits only when there is nothing it could do: everything sent was flushed, it is waiting for the socket to take what is due, and its task is registered for frames from the peer and commands from streams. A socket error ends the connection and is reported, and nothing is queued on a failed socket.",
  ["schedules","fault_sequences","histories"],"all states, all patterns of the socket (by the contracts of C02 and C03), all commands; a bounded number of events per poll, from every state",
  "Whether a frame is lost or the task is parked unregistered depends on the socket blocking at one particular moment.",
  [S+"connection.rs"],[("Active::poll",S+"connection.rs")],
  state=[("pending_read_frame, pending_write_frame","frames that wait for the socket","connection.rs Active")])
p("C21","Two connected endpoints eventually deliver and close",
  "If both ends of a reliable connection are polled fairly and the applications keep reading, every byte written and flushed is eventually received, every close is eventually seen, and no stream starves another.",
  ["schedules","histories"],"all fair schedules of two endpoints and their applications",
  "Liveness over unbounded schedules of two communicating state machines; tests run a few schedules to completion.",
  [S+"connection.rs",S+"connection/stream.rs"],[("the composition of C01 to C20 on both ends",S+"connection.rs")])
p("C22","Streams may be used from other threads than the connection",
  "Reading, writing, closing and dropping streams on other threads while the connection is polled has the effect of some sequence of these calls: no deadlock, no torn state and no lost wake-up between threads.",
  ["schedules"],"all interleavings of threads at the granularity of lock operations",
  "Thread interleavings inside calls are not controlled by any test.",
  [S+"connection/stream.rs",S+"connection.rs"],[("Arc<Mutex<Shared>>, mpsc channel",S+"connection/stream.rs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80, x['title']
        assert x['statement'].count('. ')<=3,(x['id'])
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
