"""What each property is decided by."""
COMMON_TRUST = dict(
    trusted_base=[
        "rustc (Kani's toolchain), Kani 0.68.0, CBMC 6.11.0, MiniSat",
        "the stand-ins for external crates in /verif/models: futures (traits restated, mpsc, SelectAll, Fuse), "
        "nohash-hasher (finite map), parking_lot (sequential mutex), web-time (arbitrary monotonic clock), log (off), "
        "std::io::Error (kind only)",
        "the harnesses and accessors in /verif/kani (preconditions, postconditions)",
    ],
    assumptions=[
        "sequential execution: each public call runs to completion without another thread in between (every critical "
        "section of the crate is one mutex, entered one after the other)",
        "memory safety is not re-proved (the crate forbids unsafe code)",
        "64-bit usize",
    ])


def H(name, bound="", **kw):
    return dict(name=name, bound=bound, **kw)


def D(name, bound="", **kw):
    """A contract on data frames, decided for frames with SYN and without."""
    return H(name, bound, split=[name + "_syn", name + "_rest"], **kw)


PROPS = {}
PROPS["C01"] = dict(
    title="Frame headers are coded and decoded exactly as the yamux specification says",
    attach=[("frame/header.rs", "c01_header", "c01"), ("frame.rs", "c01_frames", "c01f")],
    harnesses=[H("c01_decode_total", file="c01_header"), H("c01_encode_layout", file="c01_header"), H("c01_constructors", file="c01_header"),
               H("c01_casts", file="c01_header"), H("c01_frames", file="c01_frames"), H("c01_frames_data", file="c01_frames"),
               H("c01_frames_cast", file="c01_frames")],
    functions=["frame::header::encode", "frame::header::decode", "Header::{data,window_update,ping,term,protocol_error,internal_error}",
               "Header::{syn,ack,fin,rst}", "Header casts", "Flags::contains", "StreamId::{is_server,is_client,is_session}",
               "Frame::{new,data,close_stream,window_update,ping,term,protocol_error,internal_error,left,right,into_data,into_window_update,into_ping,from}"])
PROPS["C02"] = dict(
    title="The frame reader turns any byte stream into exactly its frames",
    attach=[("frame/io.rs", "c02_reader", "c02")],
    harnesses=[H("c02_reader_alloc"), H("c02_reader_header", "at most one read per call is answered (inductive over calls)"),
               H("c02_reader_body", "bodies of 3 bytes; at most one read per call is answered (inductive over calls)")],
    functions=["frame::io::Io::poll_next (Stream)"])
PROPS["C03"] = dict(
    title="The frame writer puts exactly the queued frames on the socket",
    attach=[("frame/io.rs", "c03_writer", "c03")],
    harnesses=[H("c03_start_send"), H("c03_poll_ready", "bodies of 0 or 3 bytes, two writes per call"),
               H("c03_poll_flush", "bodies of 0 or 3 bytes, two writes per call"),
               H("c03_poll_close", "bodies of 0 or 3 bytes, two writes per call")],
    functions=["frame::io::Io::{start_send,poll_ready,poll_flush,poll_close} (Sink)"])
PROPS["C09"] = dict(
    title="An inbound stream is admitted exactly when the protocol and the limits allow it",
    attach=[("connection.rs", "c09_admission", "c09")],
    harnesses=[D("c09_data"), H("c09_window_update"), H("c09_other_frames")],
    functions=["connection::Active::{on_frame,on_data,on_window_update,is_valid_remote_id,make_new_inbound_stream}"])

ANY = "connection of any role and configuration, one named stream in an arbitrary state, any number of others"
CONN_FNS = ["connection::Active::{on_frame,on_data,on_window_update,on_ping,is_valid_remote_id,make_new_inbound_stream}"]
STREAM_FNS = ["Stream::{poll_read,poll_next,poll_write,poll_flush,poll_close}", "Stream::{add_flag,send_window_update,write_zero_err}"]
LOCAL2 = "two named streams"

PROPS["C04"] = dict(
    title="A stream delivers the peer's bytes in order, each once",
    attach=[("chunks.rs", "c04_chunks", "c04k"), ("connection/stream.rs", "c04_read", "c04r"), ("connection.rs", "c04_data_in", "c04d")],
    harnesses=[H("c04_chunks_len", "buffers of at most two chunks, of any length", file="c04_chunks"),
               H("c04_chunks_push", "buffers of at most two chunks, of any length", file="c04_chunks"),
               H("c04_chunks_pop", "buffers of at most two chunks, of any length", file="c04_chunks"),
               H("c04_chunk_advance", file="c04_chunks"),
               H("c04_chunk_view", "chunks of at most 4 bytes", file="c04_chunks"),
               H("c04_poll_read", "buffers of at most two chunks of at most 3 bytes, read buffers of at most 4", file="c04_read"),
               H("c04_poll_next", "buffers of at most two chunks of at most 3 bytes", file="c04_read"),
               H("c04_other_calls", "buffers of at most two chunks of at most 3 bytes", file="c04_read"),
               H("c04_data_appended", "bodies of at most 3 bytes", file="c04_data_in")],
    functions=["chunks::Chunks::{new,len,push,pop,front_mut}", "chunks::Chunk::{len,offset,advance,into_vec,as_ref}",
               "Stream::{poll_read,poll_next}", "connection::Active::on_data"])
PROPS["C05"] = dict(
    title="A writer never sends more than the credit its peer granted",
    attach=[("connection.rs", "c05_credit_in", "c05i"), ("connection/stream.rs", "c05_write", "c05w")],
    harnesses=[H("c05_credit_granted", file="c05_credit_in"), H("c05_credit_untouched", file="c05_credit_in"),
               D("c05_credit_data", file="c05_credit_in"), H("c05_poll_write", file="c05_write"),
               H("c05_write_bytes", "writes of at most 4 bytes (contents)", file="c05_write"),
               H("c05_other_calls", file="c05_write"), H("c05_initial", file="c05_write")],
    functions=CONN_FNS + STREAM_FNS + ["FlowController::{consume_send_window,increase_send_window_by,send_window}", "Stream::new_inbound/new_outbound"])
PROPS["C06"] = dict(
    title="A peer that sends more than it was allowed to is cut off",
    attach=[("connection.rs", "c06_window_in", "c06")],
    harnesses=[D("c06_data"), H("c06_others")],
    functions=CONN_FNS + ["FlowController::{consume_receive_window,receive_window}", "Shared::is_open", "Chunks::{push,len}"])
PROPS["C07"] = dict(
    title="The receive window is refilled exactly, and grows only within the limits",
    attach=[("connection/stream/flow_control.rs", "c07_tuning", "c07t"), ("connection/stream.rs", "c07_read", "c07r")],
    harnesses=[H("c07_next_window_update", file="c07_tuning"), H("c07_drop", file="c07_tuning"), H("c07_new", file="c07_tuning"),
               H("c07_windows", file="c07_tuning"),
               H("c07_poll_read", file="c07_read"), H("c07_poll_next", file="c07_read"), H("c07_other_calls", file="c07_read")],
    functions=["FlowController::{new,next_window_update,consume_receive_window,consume_send_window,increase_send_window_by,drop}",
               "Shared::next_window_update", "Stream::{send_window_update,poll_read,poll_next,poll_write,poll_flush,poll_close}"])
PROPS["C08"] = dict(
    title="Stream states follow the yamux life cycle",
    attach=[("connection.rs", "c08_states_in", "c08i"), ("connection/stream.rs", "c08_states_local", "c08l")],
    harnesses=[D("c08_data_in", file="c08_states_in"), H("c08_window_update_in", file="c08_states_in"), H("c08_others_in", file="c08_states_in"),
               H("c08_update_state", file="c08_states_local"), H("c08_permissions", file="c08_states_local"),
               H("c08_queries", file="c08_states_local"), H("c08_poll_write", file="c08_states_local"),
               H("c08_poll_close", file="c08_states_local"), H("c08_poll_read", file="c08_states_local"), H("c08_poll_next", file="c08_states_local")],
    functions=CONN_FNS + STREAM_FNS + ["Shared::update_state", "State::{can_read,can_write}", "Stream::{is_closed,is_write_closed,is_pending_ack}"])
PROPS["C10"] = dict(
    title="Outbound streams get fresh identifiers and respect the limits",
    attach=[("connection.rs", "c10_outbound", "c10")],
    harnesses=[H("c10_open", LOCAL2), H("c10_backlog", LOCAL2), H("c10_waits"), H("c10_new")],
    functions=["connection::Active::{new,poll_new_outbound,next_stream_id,ack_backlog,make_new_outbound_stream}"])
PROPS["C11"] = dict(
    title="The first frame of a stream opens or accepts it, and no later one does",
    attach=[("connection/stream.rs", "c11_flags", "c11")],
    harnesses=[H("c11_poll_write"), H("c11_poll_read"), H("c11_poll_next"), H("c11_poll_close"), H("c11_poll_flush")],
    functions=STREAM_FNS)
PROPS["C12"] = dict(
    title="Closing or dropping a stream tells the peer once, after all of its data",
    attach=[("connection/stream.rs", "c12_close", "c12c"), ("connection.rs", "c12_drop", "c12d"), ("tagged_stream.rs", "c12_tagged", "c12t")],
    harnesses=[H("c12_poll_close", file="c12_close"), H("c12_after_data", file="c12_close"),
               H("c12_on_drop_stream", file="c12_drop"), H("c12_tagged", file="c12_tagged")],
    functions=["Stream::{poll_close,poll_write}", "connection::Active::on_drop_stream", "TaggedStream::poll_next"])
PROPS["C13"] = dict(
    title="Pings are answered, and only an awaited pong is believed",
    attach=[("connection.rs", "c13_ping_in", "c13")],
    harnesses=[H("c13_ping_in"), H("c13_others_in"), D("c13_data_in")],
    functions=CONN_FNS + ["Rtt::{handle_pong,next_ping,get}"])
PROPS["C15"] = dict(
    title="A task that waits is woken when it can make progress",
    attach=[("connection.rs", "c15_wake_in", "c15i"), ("connection/stream.rs", "c15_wait_local", "c15l")],
    harnesses=[D("c15_data_in", file="c15_wake_in"), H("c15_window_update_in", file="c15_wake_in"), H("c15_others_in", file="c15_wake_in"),
               H("c15_poll_write", file="c15_wait_local"), H("c15_poll_read", file="c15_wait_local"),
               H("c15_poll_next", file="c15_wait_local"), H("c15_poll_close_flush", file="c15_wait_local")],
    functions=CONN_FNS + STREAM_FNS)
PROPS["C18"] = dict(
    title="Closing or losing a connection ends all of its streams",
    attach=[("connection.rs", "c18_teardown", "c18t"), ("connection/closing.rs", "c18_closing", "c18c")],
    harnesses=[H("c18_drop_all", LOCAL2, file="c18_teardown"), H("c18_cleanup", LOCAL2, file="c18_teardown"),
               H("c18_close", LOCAL2, file="c18_teardown"), H("c18_dropped", LOCAL2, file="c18_teardown"),
               H("c18_closing", "at most one frame that waits and two commands", file="c18_closing")],
    functions=["connection::Active::{drop_all_streams,close,cleanup}", "Connection::drop", "Closing::{new,poll}", "Cleanup::{new,poll}"])
PROPS["C19"] = dict(
    title="Frames for one stream never touch another",
    attach=[("connection.rs", "c19_isolation_in", "c19")],
    harnesses=[D("c19_data_in"), H("c19_window_update_in"), H("c19_others_in")],
    functions=CONN_FNS)
EVENTS = "a bounded number of socket and command events per call, from an arbitrary state (inductive over calls)"
PROPS["C20"] = dict(
    title="The connection sends what it is asked to send, once and in order",
    attach=[("connection.rs", "c20_poll", "c20")],
    harnesses=[H("c20_slots", EVENTS), H("c20_commands", EVENTS), H("c20_inbound", EVENTS)],
    functions=["connection::Active::{poll,on_close_stream,on_send_frame}"])
PROPS["C13"]["attach"].append(("connection/rtt.rs", "c13_rtt", "c13r"))
PROPS["C13"]["harnesses"] = [H("c13_ping_in", file="c13_ping_in"), H("c13_others_in", file="c13_ping_in"), D("c13_data_in", file="c13_ping_in"),
                             H("c13_next_ping", file="c13_rtt"), H("c13_pong", file="c13_rtt")]
PROPS["C14"] = dict(
    title="A connection reports its end once and stays closed",
    attach=[("connection.rs", "c14_connection", "c14")],
    harnesses=[H("c14_%s_%s" % (c, s)) for c in ("next_inbound", "new_outbound", "close") for s in ("active", "closing", "closed")]
    + [H("c14_failed")],
    functions=["Connection::{poll_next_inbound,poll_new_outbound,poll_close}", "Closing::poll", "Cleanup::{new,poll}"],
    assumptions=["Active::poll, Active::poll_new_outbound and Active::close by their contracts (decided under C20, C10 and C18)"])
PROPS["C15"]["attach"].append(("connection.rs", "c15_wake_poll", "c15p"))
PROPS["C15"]["harnesses"] += [H("c15_command", EVENTS, file="c15_wake_poll"), H("c15_open", file="c15_wake_poll")]
PROPS["C15"]["functions"] = PROPS["C15"]["functions"] + ["connection::Active::{poll,poll_new_outbound,make_new_outbound_stream}"]
PROPS["C16"] = dict(
    title="No input from the peer makes a connection panic or lose track of a stream",
    attach=[("connection.rs", "c16_robust_in", "c16"), ("frame/header.rs", "c01_header", "c01")],
    harnesses=[D("c16_data_in", file="c16_robust_in"), H("c16_window_update_in", file="c16_robust_in"), H("c16_others_in", file="c16_robust_in"),
               H("c01_decode_total", file="c01_header")],
    functions=CONN_FNS + ["frame::header::decode"])
PROPS["C17"] = dict(
    title="Configurations that starve streams are refused",
    attach=[("lib.rs", "c17_config", "c17")],
    harnesses=[H("c17_accepted"), H("c17_default"), H("c17_refused")],
    functions=["Config::{default,set_max_connection_receive_window,set_max_num_streams,set_read_after_close,set_split_send_size}"],
    assumptions=["limits below 2^46 streams (beyond, the product of the check itself overflows: a panic in debug builds)"])


# Engine V: which extracted functions carry which property; for each the complete contracts of engine K
# that state the same, if any.
_FRAME = {"Shared::next_window_update": [], "Stream::send_window_update": []}
PROPS["C02"]["verus"] = [("io", {"Io::poll_next": []})]
PROPS["C03"]["verus"] = [("io", {"Io::poll_ready": [], "Io::start_send": ["c03_start_send"], "Io::poll_flush": [], "Io::poll_close": []})]
PROPS["C04"]["verus"] = [("stream", dict(_FRAME, **{"Chunk::len": [], "Chunk::is_empty": [], "Chunk::offset": [], "Chunk::advance": [], "Chunk::into_vec": [],
    "Chunk::as_ref": [], "Chunks::new": [], "Chunks::len": [], "Chunks::push": [], "Chunks::pop": [], "Chunks::front_mut": [],
    "Shared::state": [], "State::can_read": [], "Stream::poll_next": [], "Stream::poll_read": [], "Stream::poll_write": []}))]
PROPS["C05"]["verus"] = [("stream", dict(_FRAME, **{"FlowController::consume_send_window": [], "FlowController::increase_send_window_by": [],
    "Shared::send_window": [], "Shared::consume_send_window": [], "Stream::poll_write": [], "Stream::poll_read": ["c05_other_calls"],
    "Stream::poll_next": ["c05_other_calls"], "Stream::poll_close": ["c05_other_calls"], "Stream::poll_flush": ["c05_other_calls"]}))]
PROPS["C08"]["verus"] = [("stream", {"State::can_read": ["c08_permissions"], "State::can_write": ["c08_permissions"], "Shared::state": [],
    "Shared::update_state": ["c08_update_state"], "Stream::is_closed": ["c08_queries"], "Stream::is_write_closed": ["c08_queries"],
    "Stream::send_window_update": ["c08_poll_read", "c08_poll_next"], "Stream::poll_read": ["c08_poll_read"], "Stream::poll_next": ["c08_poll_next"],
    "Stream::poll_write": ["c08_poll_write"], "Stream::poll_close": ["c08_poll_close"]})]
PROPS["C11"]["verus"] = [("stream", {"Stream::add_flag": ["c11_poll_write", "c11_poll_read"], "Stream::send_window_update": ["c11_poll_read", "c11_poll_next"],
    "Stream::poll_read": ["c11_poll_read"], "Stream::poll_next": ["c11_poll_next"], "Stream::poll_write": ["c11_poll_write"],
    "Stream::poll_close": ["c11_poll_close"], "Stream::poll_flush": ["c11_poll_flush"]})]
PROPS["C12"]["verus"] = [("stream", {"Stream::poll_close": ["c12_poll_close"], "Stream::is_closed": ["c12_poll_close"]})]
PROPS["C15"]["verus"] = [("stream", {"Stream::poll_read": ["c15_poll_read"], "Stream::poll_next": ["c15_poll_next"], "Stream::poll_write": ["c15_poll_write"]})]
PROPS["C18"]["verus"] = [("closing", {"Closing::new": [], "Closing::poll": []}), ("cleanup", {"Cleanup::new": [], "Cleanup::poll": []})]
# The connection's own functions (unit conn), with the properties whose clauses they carry.
def _conn(pid, **fns):
    PROPS[pid].setdefault("verus", [])
    PROPS[pid]["verus"] = PROPS[pid]["verus"] + [("conn", {f.replace("__", "::"): t for f, t in fns.items()})]


_conn("C04", Active__on_data=[], Active__on_window_update=[], Active__on_frame=[])
_conn("C05", Stream__new_inbound=["c05_initial"], Stream__new_outbound=["c05_initial"], Shared__increase_send_window_by=["c05_credit_granted"],
      Active__on_data=["c05_credit_data"], Active__on_window_update=["c05_credit_granted"],
      Active__on_frame=["c05_credit_data", "c05_credit_granted", "c05_credit_untouched"])
_conn("C06", FlowController__consume_receive_window=["c06_data"], FlowController__increase_send_window_by=["c06_others"], Shared__increase_send_window_by=["c06_others"], Shared__consume_receive_window=["c06_data"], Stream__new_inbound=["c06_data", "c06_others"],
      Active__on_data=["c06_data"], Active__on_window_update=["c06_others"], Active__on_frame=["c06_data", "c06_others"])
_conn("C08", Active__on_data=["c08_data_in"], Active__on_window_update=["c08_window_update_in"],
      Active__on_frame=["c08_data_in", "c08_window_update_in", "c08_others_in"], Active__on_drop_stream=[])
_conn("C09", Active__is_valid_remote_id=["c09_data", "c09_window_update"], Active__make_new_inbound_stream=["c09_data", "c09_window_update"],
      Active__on_data=["c09_data"], Active__on_window_update=["c09_window_update"], Active__on_ping=["c09_other_frames"],
      Active__on_frame=["c09_data", "c09_window_update", "c09_other_frames"], Active__poll=[])
_conn("C10", Active__next_stream_id=[], Active__ack_backlog=[], Shared__is_pending_ack=[], Active__make_new_outbound_stream=[], Stream__new_outbound=[],
      Active__poll_new_outbound=[])
_conn("C12", Active__on_drop_stream=["c12_on_drop_stream"], Active__poll=[])
_conn("C13", Active__on_data=["c13_data_in"], Active__on_window_update=["c13_others_in"], Active__on_ping=["c13_ping_in"],
      Active__on_frame=["c13_data_in", "c13_others_in", "c13_ping_in"], Active__poll=[])
_conn("C15", Active__wake_new_outbound_stream=[], Active__on_data=["c15_data_in"], Active__on_window_update=["c15_window_update_in"],
      Active__on_frame=["c15_data_in", "c15_window_update_in", "c15_others_in"], Active__on_drop_stream=[],
      Active__make_new_outbound_stream=["c15_open"], Active__poll_new_outbound=["c15_open"], Active__poll=[])
_conn("C16", Active__on_data=["c16_data_in"], Active__on_window_update=["c16_window_update_in"], Active__on_ping=["c16_others_in"],
      Active__on_frame=["c16_data_in", "c16_window_update_in", "c16_others_in"], Active__on_drop_stream=[], Active__poll=[])
_conn("C18", Active__drop_all_streams=[], Active__close=[], Active__cleanup=[])
_conn("C19", Active__on_data=["c19_data_in"], Active__on_window_update=["c19_window_update_in"], Active__on_ping=["c19_others_in"],
      Active__on_frame=["c19_data_in", "c19_window_update_in", "c19_others_in"])
_conn("C20", Active__on_drop_stream=[], Active__poll=[])
_conn("C20", Active__on_data=[], Active__on_window_update=[], Active__on_ping=[], Active__on_frame=[], Active__poll=[])
_conn("C20", Active__poll=[])
for _i, _part in ((-2, "C20r"), (-1, "C20e")):
    PROPS["C20"]["verus"][_i] += (_part,)
