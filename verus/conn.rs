//@include prelude.rs
verus! {
//@include base_chunks.rs
//@include base_frames.rs
//@include base_shared.rs
//@include base_recv.rs
//@include base_conn.rs
//@include base_due.rs
//@include base_poll.rs
use connection::Id;
impl StreamId {
    spec fn odd(self) -> bool { self.0 % 2 == 1 }
//@fn frame/header.rs "StreamId" new
//@sig: fn new(val: u32) -> Self
//@as: fn new(val: u32) -> (r: StreamId)
//@spec: ensures r.0 == val
//@end
//@fn frame/header.rs "StreamId" is_server
//@sig: fn is_server(self) -> bool
//@as: fn is_server(self) -> (r: bool)
//@spec: ensures r == !self.odd()
//@end
//@fn frame/header.rs "StreamId" is_client
//@sig: fn is_client(self) -> bool
//@as: fn is_client(self) -> (r: bool)
//@spec: ensures r == self.odd()
//@end
//@fn frame/header.rs "StreamId" is_session
//@sig: fn is_session(self) -> bool
//@as: fn is_session(self) -> (r: bool)
//@spec: ensures r == (self.0 == 0)
//@end
}
//@item frame/header.rs const CONNECTION_ID
//@item lib.rs const MAX_ACK_BACKLOG
impl Stream {
    // An Arc to the stream's half.
    #[verifier::external_body]
    fn clone_shared(&self) -> (r: Shared) ensures r == self.shared { unimplemented!() }
//@fn connection/stream.rs "Stream" new_inbound
//@sig: fn new_inbound(id: StreamId, conn: connection::Id, config: Arc<Config>, send_window: u32, sender: mpsc::Sender<StreamCommand>, rtt: rtt::Rtt, accumulated_max_stream_windows: Arc<Mutex<usize>>) -> Self
//@as: fn new_inbound(id: StreamId, conn: connection::Id, config: Config, send_window: u32, sender: mpsc::Sender<StreamCommand>, rtt: Rtt, accumulated_max_stream_windows: Counter) -> (r: Stream)
//@spec: ensures r.id == id, r.conn == conn, r.config == config, r.sender == sender, r.flag is Ack, r.shared.fresh(DEFAULT_CREDIT, send_window)
//@end
//@fn connection/stream.rs "Stream" new_outbound
//@sig: fn new_outbound(id: StreamId, conn: connection::Id, config: Arc<Config>, sender: mpsc::Sender<StreamCommand>, rtt: rtt::Rtt, accumulated_max_stream_windows: Arc<Mutex<usize>>) -> Self
//@as: fn new_outbound(id: StreamId, conn: connection::Id, config: Config, sender: mpsc::Sender<StreamCommand>, rtt: Rtt, accumulated_max_stream_windows: Counter) -> (r: Stream)
//@spec: ensures r.id == id, r.conn == conn, r.config == config, r.sender == sender, r.flag is Syn, r.shared.fresh(DEFAULT_CREDIT, DEFAULT_CREDIT)
//@end
}
// What becomes of a connection that ends, with what it held (the table of streams, the log).
pub struct Closing { stream_receivers: Receivers, pending_frames: VecDeque<Frame>, socket: Socket, streams: Streams, woken: Woken }
impl Closing {
    fn begin(stream_receivers: Receivers, pending_frames: VecDeque<Frame>, socket: Socket, streams: Streams, woken: Woken) -> (r: Closing)
        ensures r == (Closing { stream_receivers, pending_frames, socket, streams, woken }) { Closing { stream_receivers, pending_frames, socket, streams, woken } }
}
pub struct Cleanup { stream_receivers: Receivers, error: ConnectionError, streams: Streams, woken: Woken }
impl Cleanup {
    fn begin(stream_receivers: Receivers, error: ConnectionError, streams: Streams, woken: Woken) -> (r: Cleanup)
        ensures r == (Cleanup { stream_receivers, error, streams, woken }) { Cleanup { stream_receivers, error, streams, woken } }
}
fn two(a: Option<Frame>, b: Option<Frame>) -> (r: VecDeque<Frame>) ensures r@ =~= opt(a) + opt(b) {
    let mut v = VecDeque::new();
    if let Some(f) = a { v.push_back(f); }
    if let Some(f) = b { v.push_back(f); }
    v
}
// ---- the crate's text: connection.rs ----
#[derive(Copy, Clone, PartialEq, Eq)]
//@item connection.rs enum Mode
//@item connection.rs enum Action pub
//@item connection.rs struct Active with woken: Woken
/// What the connection has to say is an answer.
spec fn answers(a: Action) -> bool { match a { Action::Ping(f) => class(f) == 1, Action::Terminate(f) => f.header.kind is GoAway, _ => true } }
impl Shared {
    /// What is buffered was paid for with the window.
    spec fn wf(self) -> bool {
        self.buffer.wf() && self.buffer.view().len() + self.flow_controller.receive_window <= self.flow_controller.max_receive_window
    }
    /// The stream as a reset, or the end of the connection, leaves it.
    spec fn ended(self) -> Shared { Shared { state: State::Closed, reader: None, writer: None, ..self } }
}
impl Active {
    spec fn own(self, id: StreamId) -> bool { id.odd() == (self.mode is Client) }
    spec fn wf(self) -> bool { self.wf_with(self.stream_receivers.ids()) }
    spec fn wf_with(self, ids: Set<StreamId>) -> bool {
        &&& self.streams.view().dom() =~= ids

        &&& self.streams.view().len() <= self.config.max_num_streams
        &&& !self.streams.view().dom().contains(StreamId(0))
        &&& self.next_id != 0 && self.own(StreamId(self.next_id))
        &&& forall|id: StreamId| #[trigger] self.streams.view().dom().contains(id) && self.own(id) ==> id.0 < self.next_id
        &&& forall|id: StreamId| #[trigger] self.streams.view().dom().contains(id) ==> self.streams.view()[id].wf()
    }
    /// What frames from the peer never change.
    spec fn fixed(self, o: Active) -> bool {
        &&& self.id == o.id && self.mode == o.mode && self.config == o.config && self.next_id == o.next_id
        &&& self.socket == o.socket && self.pending_read_frame == o.pending_read_frame && self.pending_write_frame == o.pending_write_frame
        &&& self.stream_receivers.taken() == o.stream_receivers.taken()
        &&& self.rtt.pings() == o.rtt.pings()
        &&& self.streams.gone() == o.streams.gone() && self.streams.removed() == o.streams.removed()
    }
    /// The streams other than id are as they were.
    spec fn others(self, o: Active, id: StreamId) -> bool {
        self.streams.view().remove(id) =~= o.streams.view().remove(id)
    }
    spec fn unchanged(self, o: Active) -> bool {
        self.streams.view() =~= o.streams.view() && self.stream_receivers == o.stream_receivers && self.no_streams_waker == o.no_streams_waker
            && self.rtt == o.rtt
    }
    spec fn remote(self, id: StreamId) -> bool { id.0 != 0 && !self.own(id) }

//@fn connection.rs "Active<T>" wake_new_outbound_stream conn
//@sig: fn wake_new_outbound_stream(&mut self)
//@as: fn wake_new_outbound_stream(&mut self)
//@spec: ensures
    *final(self) == (Active { new_outbound_stream_waker: None, woken: final(self).woken, ..*old(self) }),
    final(self).woken.logged(old(self).woken), final(self).woken.woke(old(self).new_outbound_stream_waker),
//@end
//@fn connection.rs "Active<T>" is_valid_remote_id conn
//@sig: fn is_valid_remote_id(&self, id: StreamId, tag: Tag) -> bool
//@as: fn is_valid_remote_id(&self, id: StreamId, tag: Tag) -> (r: bool)
//@spec: ensures tag is Data || tag is WindowUpdate ==> r == self.remote(id)
//@end
//@fn connection.rs "Active<T>" make_new_inbound_stream conn
//@sig: fn make_new_inbound_stream(&mut self, id: StreamId, credit: u32) -> Stream
//@as: fn make_new_inbound_stream(&mut self, id: StreamId, credit: u32) -> (r: Stream)
//@spec: ensures
    *final(self) == (Active { no_streams_waker: None, woken: final(self).woken, stream_receivers: final(self).stream_receivers, ..*old(self) }),
    final(self).woken.logged(old(self).woken), final(self).woken.woke(old(self).no_streams_waker),
    final(self).stream_receivers.ids() == old(self).stream_receivers.ids().insert(id),
    final(self).stream_receivers.taken() == old(self).stream_receivers.taken(),
    r.id == id, r.flag is Ack, r.shared.fresh(DEFAULT_CREDIT, credit),
//@end
//@fn connection.rs "Active<T>" make_new_outbound_stream conn
//@sig: fn make_new_outbound_stream(&mut self, id: StreamId) -> Stream
//@as: fn make_new_outbound_stream(&mut self, id: StreamId) -> (r: Stream)
//@spec: ensures
    *final(self) == (Active { no_streams_waker: None, woken: final(self).woken, stream_receivers: final(self).stream_receivers, ..*old(self) }),
    final(self).woken.logged(old(self).woken), final(self).woken.woke(old(self).no_streams_waker),
    final(self).stream_receivers.ids() == old(self).stream_receivers.ids().insert(id),
    final(self).stream_receivers.taken() == old(self).stream_receivers.taken(),
    r.id == id, r.flag is Syn, r.shared.fresh(DEFAULT_CREDIT, DEFAULT_CREDIT),
//@end
//@fn connection.rs "Active<T>" next_stream_id conn
//@sig: fn next_stream_id(&mut self) -> Result<StreamId>
//@as: fn next_stream_id(&mut self) -> (r: Result<StreamId, ConnectionError>)
//@spec: requires old(self).wf(),
    ensures match r {
        Ok(id) => id.0 == old(self).next_id && *final(self) == (Active { next_id: (old(self).next_id + 2) as u32, ..*old(self) }) && final(self).next_id == old(self).next_id + 2,
        Err(e) => e is NoMoreStreamIds && old(self).next_id + 2 > u32::MAX && *final(self) == *old(self),
    },
//@end

    // ---- what one frame does ----
    spec fn known(self, f: Frame) -> bool { self.streams.view().dom().contains(f.header.id) }
    spec fn full(self) -> bool { self.streams.view().len() >= self.config.max_num_streams }
    spec fn reset(f: Frame) -> bool { f.header.flags.rst }
    spec fn opens(f: Frame) -> bool { f.header.flags.syn && !f.header.flags.rst }
    /// A frame that opens a stream and may.
    spec fn admitted(self, f: Frame) -> bool {
        &&& Active::opens(f) && self.remote(f.header.id) && !self.known(f) && !self.full()
        &&& f.header.kind is Data ==> f.body@.len() <= DEFAULT_CREDIT
        &&& f.header.kind is WindowUpdate ==> f.header.len + DEFAULT_CREDIT <= u32::MAX
    }
    /// A frame for a stream that is there.
    spec fn hit(self, f: Frame) -> bool { self.known(f) && !f.header.flags.syn && !f.header.flags.rst }
    spec fn the(self, f: Frame) -> Shared { self.streams.view()[f.header.id] }
    /// A frame that breaks the rules of flow control.
    spec fn excess(self, f: Frame) -> bool {
        self.hit(f) && (f.header.kind is Data && f.body@.len() > self.the(f).flow_controller.receive_window
            || f.header.kind is WindowUpdate && f.header.len + self.the(f).flow_controller.send_window > u32::MAX)
    }
    /// Nothing happens to the streams.
    spec fn inert(self, o: Active) -> bool { self.streams.view() =~= o.streams.view() && self.stream_receivers == o.stream_receivers }
    spec fn finish(s: State, f: Frame) -> State { if f.header.flags.fin { s.after(State::RecvClosed) } else { s } }
    spec fn woke(self, o: Active, w: Option<Waker>) -> bool { self.woken.woke(w) }
    spec fn logged(self, o: Active) -> bool { self.woken.logged(o.woken) }

//@fn connection.rs "Active<T>" on_data conn
//@sig: fn on_data(&mut self, frame: Frame<Data>) -> Action
//@as: fn on_data(&mut self, frame: Frame) -> (r: Action)
//@spec: requires old(self).wf(), frame.read_ok(), frame.header.kind is Data,
//@ensures:
        final(self).wf(), final(self).fixed(*old(self)), answers(r),
//@ensures C13 C20r:
        final(self).rtt == old(self).rtt, !(r is Ping),
//@ensures C19 C16:
        final(self).others(*old(self), frame.header.id),
        old(self).known(frame) ==> final(self).known(frame),
//@ensures C16:
        !old(self).known(frame) && !(r is New) ==> !final(self).known(frame),
//@ensures C09:
        r is New <==> old(self).admitted(frame),
        r matches Action::New(s) ==> s.id == frame.header.id && s.flag is Ack && final(self).known(frame) && final(self).the(frame) == s.shared,
        !(r is New) ==> final(self).streams.view().dom() =~= old(self).streams.view().dom(),
        Active::opens(frame) && !old(self).admitted(frame) ==> final(self).inert(*old(self))
            && (goaway(r, 1) || goaway(r, 2) && old(self).remote(frame.header.id) && !old(self).known(frame) && old(self).full()),
//@ensures C06 C05:
        old(self).excess(frame) ==> goaway(r, 1) && final(self).inert(*old(self)),
        !old(self).excess(frame) && !Active::opens(frame) ==> r is None,
//@ensures C06:
        r matches Action::New(s) ==> s.shared.flow_controller.receive_window == DEFAULT_CREDIT - frame.body@.len() && s.shared.flow_controller.max_receive_window == DEFAULT_CREDIT,
        old(self).known(frame) && !old(self).excess(frame) ==> final(self).the(frame).flow_controller.max_receive_window == old(self).the(frame).flow_controller.max_receive_window
            && final(self).the(frame).flow_controller.receive_window == old(self).the(frame).flow_controller.receive_window - if old(self).hit(frame) { frame.body@.len() as int } else { 0 },
//@ensures C05:
        r matches Action::New(s) ==> s.shared.flow_controller.send_window == DEFAULT_CREDIT,
        old(self).known(frame) && !old(self).excess(frame) ==> final(self).the(frame).flow_controller.send_window == old(self).the(frame).flow_controller.send_window,
//@ensures C04:
        r matches Action::New(s) ==> s.shared.buffer.view() =~= frame.body@,
        old(self).known(frame) ==> final(self).the(frame).buffer.view() =~= old(self).the(frame).buffer.view() + if old(self).hit(frame) && !old(self).excess(frame) { frame.body@ } else { Seq::empty() },
//@ensures C08:
        r matches Action::New(s) ==> s.shared.state == Active::finish(State::Open { acknowledged: false }, frame),
        old(self).known(frame) ==> final(self).the(frame).state == if Active::reset(frame) { State::Closed }
            else if old(self).hit(frame) && !old(self).excess(frame) { Active::finish(old(self).the(frame).state, frame) } else { old(self).the(frame).state },
//@ensures C15:
        final(self).logged(*old(self)),
        final(self).new_outbound_stream_waker == old(self).new_outbound_stream_waker,
        final(self).no_streams_waker == old(self).no_streams_waker || final(self).no_streams_waker is None && final(self).woke(*old(self), old(self).no_streams_waker),
        old(self).known(frame) ==> {
            let (o, n) = (old(self).the(frame), final(self).the(frame));
            // A task that waits to read or write stays registered or is woken; it is woken when there is something for it.
            &&& n.reader == o.reader || n.reader is None && final(self).woke(*old(self), o.reader)
            &&& n.writer == o.writer || n.writer is None && final(self).woke(*old(self), o.writer)
            &&& Active::reset(frame) ==> n.reader is None && n.writer is None
            &&& old(self).hit(frame) && !old(self).excess(frame) ==> n.reader is None
        },
//@end
//@fn connection.rs "Active<T>" on_window_update conn
//@sig: fn on_window_update(&mut self, frame: &Frame<WindowUpdate>) -> Action
//@as: fn on_window_update(&mut self, frame: &Frame) -> (r: Action)
//@spec: requires old(self).wf(), frame.read_ok(), frame.header.kind is WindowUpdate,
//@ensures:
        final(self).wf(), final(self).fixed(*old(self)), answers(r),
//@ensures C13 C20r:
        final(self).rtt == old(self).rtt, !(r is Ping),
//@ensures C19 C16:
        final(self).others(*old(self), frame.header.id),
        old(self).known(*frame) ==> final(self).known(*frame),
//@ensures C16:
        !old(self).known(*frame) && !(r is New) ==> !final(self).known(*frame),
//@ensures C09:
        r is New <==> old(self).admitted(*frame),
        r matches Action::New(s) ==> s.id == frame.header.id && s.flag is Ack && final(self).known(*frame) && final(self).the(*frame) == s.shared,
        !(r is New) ==> final(self).streams.view().dom() =~= old(self).streams.view().dom(),
        Active::opens(*frame) && !old(self).admitted(*frame) ==> final(self).inert(*old(self))
            && (goaway(r, 1) || goaway(r, 2) && false),
//@ensures C06 C05:
        old(self).excess(*frame) ==> goaway(r, 1) && final(self).inert(*old(self)),
        !old(self).excess(*frame) && !Active::opens(*frame) ==> r is None,
//@ensures C06:
        r matches Action::New(s) ==> s.shared.flow_controller.receive_window == DEFAULT_CREDIT && s.shared.flow_controller.max_receive_window == DEFAULT_CREDIT,
        old(self).known(*frame) && !old(self).excess(*frame) ==> final(self).the(*frame).flow_controller.max_receive_window == old(self).the(*frame).flow_controller.max_receive_window
            && final(self).the(*frame).flow_controller.receive_window == old(self).the(*frame).flow_controller.receive_window,
//@ensures C05:
        r matches Action::New(s) ==> s.shared.flow_controller.send_window == DEFAULT_CREDIT + frame.header.len,
        old(self).known(*frame) && !old(self).excess(*frame) ==> final(self).the(*frame).flow_controller.send_window == old(self).the(*frame).flow_controller.send_window + if old(self).hit(*frame) { frame.header.len as int } else { 0 },
//@ensures C04:
        r matches Action::New(s) ==> s.shared.buffer.view() =~= Seq::<u8>::empty(),
        old(self).known(*frame) ==> final(self).the(*frame).buffer.view() =~= old(self).the(*frame).buffer.view(),
//@ensures C08:
        r matches Action::New(s) ==> s.shared.state == Active::finish(State::Open { acknowledged: false }, *frame),
        old(self).known(*frame) ==> final(self).the(*frame).state == if Active::reset(*frame) { State::Closed }
            else if old(self).hit(*frame) && !old(self).excess(*frame) { Active::finish(old(self).the(*frame).state, *frame) } else { old(self).the(*frame).state },
//@ensures C15:
        final(self).logged(*old(self)),
        final(self).new_outbound_stream_waker == old(self).new_outbound_stream_waker,
        final(self).no_streams_waker == old(self).no_streams_waker || final(self).no_streams_waker is None && final(self).woke(*old(self), old(self).no_streams_waker),
        old(self).known(*frame) ==> {
            let (o, n) = (old(self).the(*frame), final(self).the(*frame));
            // A task that waits to read or write stays registered or is woken; it is woken when there is something for it.
            &&& n.reader == o.reader || n.reader is None && final(self).woke(*old(self), o.reader)
            &&& n.writer == o.writer || n.writer is None && final(self).woke(*old(self), o.writer)
            &&& Active::reset(*frame) ==> n.reader is None && n.writer is None
            &&& old(self).hit(*frame) && !old(self).excess(*frame) ==> (frame.header.len > 0 ==> n.writer is None) && (frame.header.flags.fin ==> n.reader is None)
        },
//@end
//@fn connection.rs "Active<T>" on_ping conn
//@sig: fn on_ping(&mut self, frame: &Frame<Ping>) -> Action
//@as: fn on_ping(&mut self, frame: &Frame) -> (r: Action)
//@spec: requires old(self).wf(), frame.header.kind is Ping,
//@ensures:
        final(self).wf(), final(self).fixed(*old(self)), answers(r), !(r is New), final(self).inert(*old(self)),
        final(self).woken == old(self).woken, final(self).new_outbound_stream_waker == old(self).new_outbound_stream_waker, final(self).no_streams_waker == old(self).no_streams_waker,
//@ensures C13 C20r:
        // An answer to one of ours is believed only if it is awaited; a question is answered with its own number.
        frame.header.flags.ack ==> (r is None || goaway(r, 1)) && (r is None <==> old(self).rtt.awaiting() == Some(frame.header.len)) && (r is None ==> final(self).rtt.awaiting() is None),
        !frame.header.flags.ack ==> final(self).rtt == old(self).rtt && match r {
            Action::Ping(f) => (frame.header.id.0 == 0 || old(self).known(*frame)) && f.body@ == Seq::<u8>::empty()
                && f.header == (Header { flags: flags(false, true, false), ..Header::new(Tag::Ping, StreamId(0), frame.header.len) }),
            Action::None => frame.header.id.0 != 0 && !old(self).known(*frame),
            _ => false,
        },
//@end
//@fn connection.rs "Active<T>" on_frame conn
//@sig: fn on_frame(&mut self, frame: Frame<()>) -> Result<Action>
//@as: fn on_frame(&mut self, frame: Frame) -> (r: Result<Action, ConnectionError>)
//@spec: requires old(self).wf(), frame.read_ok(),
//@ensures:
        final(self).wf(), final(self).fixed(*old(self)), r matches Ok(a) ==> answers(a),
        frame.header.kind is Ping ==> !(r matches Ok(Action::New(_))),
        // The peer's goodbye, and nothing else, ends the connection here.
        r is Err <==> frame.header.kind is GoAway, r matches Err(e) ==> e is Closed,
//@ensures C16 C19:
        final(self).others(*old(self), frame.header.id),
        frame.header.kind is Ping || frame.header.kind is GoAway ==> final(self).inert(*old(self)),
//@ensures C13 C20r:
        frame.header.kind is Ping ==> (r matches Ok(a) && (
            (frame.header.flags.ack ==> (a is None || goaway(a, 1)) && (a is None <==> old(self).rtt.awaiting() == Some(frame.header.len)) && (a is None ==> final(self).rtt.awaiting() is None))
            && (!frame.header.flags.ack ==> final(self).rtt == old(self).rtt && match a {
                Action::Ping(f) => (frame.header.id.0 == 0 || old(self).known(frame)) && f.body@ == Seq::<u8>::empty()
                    && f.header == (Header { flags: flags(false, true, false), ..Header::new(Tag::Ping, StreamId(0), frame.header.len) }),
                Action::None => frame.header.id.0 != 0 && !old(self).known(frame),
                _ => false,
            }))),
        !(frame.header.kind is Ping) ==> final(self).rtt == old(self).rtt && !(r matches Ok(Action::Ping(_))),
//@ensures C15:
        final(self).logged(*old(self)),
        if frame.header.flags.ack || frame.header.flags.fin || frame.header.flags.rst { final(self).new_outbound_stream_waker is None && final(self).woke(*old(self), old(self).new_outbound_stream_waker) }
            else { final(self).new_outbound_stream_waker == old(self).new_outbound_stream_waker },
        final(self).no_streams_waker == old(self).no_streams_waker || final(self).no_streams_waker is None && final(self).woke(*old(self), old(self).no_streams_waker),
//@ensures C19 C16:
        frame.header.kind is Data ==> (r matches Ok(a) ==> (old(self).known(frame) ==> final(self).known(frame))),
//@ensures C16:
        frame.header.kind is Data ==> (r matches Ok(a) ==> (!old(self).known(frame) && !(a is New) ==> !final(self).known(frame))),
//@ensures C09:
        frame.header.kind is Data ==> (r matches Ok(a) ==> (a is New <==> old(self).admitted(frame))),
        frame.header.kind is Data ==> (r matches Ok(a) ==> (a matches Action::New(s) ==> s.id == frame.header.id && s.flag is Ack && final(self).known(frame) && final(self).the(frame) == s.shared)),
        frame.header.kind is Data ==> (r matches Ok(a) ==> (!(a is New) ==> final(self).streams.view().dom() =~= old(self).streams.view().dom())),
//@ensures C06 C05:
        frame.header.kind is Data ==> (r matches Ok(a) ==> (!old(self).excess(frame) && !Active::opens(frame) ==> a is None)),
//@ensures C06:
        frame.header.kind is Data ==> (r matches Ok(a) ==> (a matches Action::New(s) ==> s.shared.flow_controller.receive_window == DEFAULT_CREDIT - frame.body@.len() && s.shared.flow_controller.max_receive_window == DEFAULT_CREDIT)),
        frame.header.kind is Data ==> (r matches Ok(a) ==> (old(self).known(frame) && !old(self).excess(frame) ==> final(self).the(frame).flow_controller.max_receive_window == old(self).the(frame).flow_controller.max_receive_window
            && final(self).the(frame).flow_controller.receive_window == old(self).the(frame).flow_controller.receive_window - if old(self).hit(frame) { frame.body@.len() as int } else { 0 })),
//@ensures C05:
        frame.header.kind is Data ==> (r matches Ok(a) ==> (a matches Action::New(s) ==> s.shared.flow_controller.send_window == DEFAULT_CREDIT)),
        frame.header.kind is Data ==> (r matches Ok(a) ==> (old(self).known(frame) && !old(self).excess(frame) ==> final(self).the(frame).flow_controller.send_window == old(self).the(frame).flow_controller.send_window)),
//@ensures C04:
        frame.header.kind is Data ==> (r matches Ok(a) ==> (a matches Action::New(s) ==> s.shared.buffer.view() =~= frame.body@)),
        frame.header.kind is Data ==> (r matches Ok(a) ==> (old(self).known(frame) ==> final(self).the(frame).buffer.view() =~= old(self).the(frame).buffer.view() + if old(self).hit(frame) && !old(self).excess(frame) { frame.body@ } else { Seq::empty() })),
//@ensures C19 C16:
        frame.header.kind is WindowUpdate ==> (r matches Ok(a) ==> (old(self).known(frame) ==> final(self).known(frame))),
//@ensures C16:
        frame.header.kind is WindowUpdate ==> (r matches Ok(a) ==> (!old(self).known(frame) && !(a is New) ==> !final(self).known(frame))),
//@ensures C09:
        frame.header.kind is WindowUpdate ==> (r matches Ok(a) ==> (a is New <==> old(self).admitted(frame))),
        frame.header.kind is WindowUpdate ==> (r matches Ok(a) ==> (a matches Action::New(s) ==> s.id == frame.header.id && s.flag is Ack && final(self).known(frame) && final(self).the(frame) == s.shared)),
        frame.header.kind is WindowUpdate ==> (r matches Ok(a) ==> (!(a is New) ==> final(self).streams.view().dom() =~= old(self).streams.view().dom())),
//@ensures C06 C05:
        frame.header.kind is WindowUpdate ==> (r matches Ok(a) ==> (!old(self).excess(frame) && !Active::opens(frame) ==> a is None)),
//@ensures C06:
        frame.header.kind is WindowUpdate ==> (r matches Ok(a) ==> (a matches Action::New(s) ==> s.shared.flow_controller.receive_window == DEFAULT_CREDIT && s.shared.flow_controller.max_receive_window == DEFAULT_CREDIT)),
        frame.header.kind is WindowUpdate ==> (r matches Ok(a) ==> (old(self).known(frame) && !old(self).excess(frame) ==> final(self).the(frame).flow_controller.max_receive_window == old(self).the(frame).flow_controller.max_receive_window
            && final(self).the(frame).flow_controller.receive_window == old(self).the(frame).flow_controller.receive_window)),
//@ensures C05:
        frame.header.kind is WindowUpdate ==> (r matches Ok(a) ==> (a matches Action::New(s) ==> s.shared.flow_controller.send_window == DEFAULT_CREDIT + frame.header.len)),
        frame.header.kind is WindowUpdate ==> (r matches Ok(a) ==> (old(self).known(frame) && !old(self).excess(frame) ==> final(self).the(frame).flow_controller.send_window == old(self).the(frame).flow_controller.send_window + if old(self).hit(frame) { frame.header.len as int } else { 0 })),
//@ensures C04:
        frame.header.kind is WindowUpdate ==> (r matches Ok(a) ==> (a matches Action::New(s) ==> s.shared.buffer.view() =~= Seq::<u8>::empty())),
        frame.header.kind is WindowUpdate ==> (r matches Ok(a) ==> (old(self).known(frame) ==> final(self).the(frame).buffer.view() =~= old(self).the(frame).buffer.view())),
//@ensures C08:
        r matches Ok(Action::New(s)) ==> s.shared.state == Active::finish(State::Open { acknowledged: false }, frame),
        old(self).known(frame) && final(self).known(frame) ==> {
            let (o, stream) = (old(self).the(frame).state, frame.header.kind is Data || frame.header.kind is WindowUpdate);
            let m = if stream && frame.header.flags.ack { o.after(State::Open { acknowledged: true }) } else { o };
            final(self).the(frame).state == if stream && Active::reset(frame) { State::Closed }
                else if stream && old(self).hit(frame) && !old(self).excess(frame) { Active::finish(m, frame) } else { m }
        },
//@ensures C15:
        old(self).known(frame) && final(self).known(frame) && (frame.header.kind is Data || frame.header.kind is WindowUpdate) ==> {
            let (o, n) = (old(self).the(frame), final(self).the(frame));
            &&& n.reader == o.reader || n.reader is None && final(self).woke(*old(self), o.reader)
            &&& n.writer == o.writer || n.writer is None && final(self).woke(*old(self), o.writer)
            &&& Active::reset(frame) ==> n.reader is None && n.writer is None
            &&& old(self).hit(frame) && !old(self).excess(frame) && frame.header.kind is Data ==> n.reader is None
            &&& old(self).hit(frame) && !old(self).excess(frame) && frame.header.kind is WindowUpdate ==> (frame.header.len > 0 ==> n.writer is None) && (frame.header.flags.fin ==> n.reader is None)
        },
//@end

    // ---- streams that go ----
//@fn connection.rs "Active<T>" on_drop_stream conn
//@sig: fn on_drop_stream(&mut self, stream_id: StreamId) -> Option<Frame<()>>
//@as: fn on_drop_stream(&mut self, stream_id: StreamId) -> (r: Option<Frame>)
//@spec: requires !old(self).stream_receivers.ids().contains(stream_id), old(self).wf_with(old(self).stream_receivers.ids().insert(stream_id)),
//@ensures:
        final(self).wf(),
        *final(self) == (Active { streams: final(self).streams, woken: final(self).woken, new_outbound_stream_waker: None, ..*old(self) }),
        final(self).streams.view() =~= old(self).streams.view().remove(stream_id),
        final(self).streams.removed() == old(self).streams.removed().push(old(self).streams.view()[stream_id]),
//@ensures C12 C20 C20r C13:
        r is Some <==> tells(old(self).streams.view()[stream_id].state),
        r matches Some(f) ==> dropped(f, stream_id, old(self).streams.view()[stream_id].state),
//@ensures C08 C15:
        // What the user still holds of it is closed, and nobody waits for it any more.
        final(self).streams.gone() == old(self).streams.gone().insert(stream_id, old(self).streams.view()[stream_id].ended()),
//@ensures C15:
        final(self).logged(*old(self)), final(self).woke(*old(self), old(self).new_outbound_stream_waker),
        final(self).woke(*old(self), old(self).streams.view()[stream_id].reader), final(self).woke(*old(self), old(self).streams.view()[stream_id].writer),
//@end
    /// All that the table had has ended, and everybody who waited was woken.
    spec fn all_ended(streams: Streams, woken: Woken, o: Active) -> bool {
        &&& streams.view() =~= Map::<StreamId, Shared>::empty()
        &&& woken.logged(o.woken) && woken.woke(o.new_outbound_stream_waker)
        &&& forall|id: StreamId| #[trigger] o.streams.view().dom().contains(id) ==> streams.gone().dom().contains(id) && streams.gone()[id] == o.streams.view()[id].ended()
            && woken.woke(o.streams.view()[id].reader) && woken.woke(o.streams.view()[id].writer)
    }
//@fn connection.rs "Active<T>" drop_all_streams conn
//@sig: fn drop_all_streams(&mut self)
//@as: fn drop_all_streams(&mut self)
//@spec: ensures
        Active::all_ended(final(self).streams, final(self).woken, *old(self)),
        *final(self) == (Active { streams: final(self).streams, woken: final(self).woken, new_outbound_stream_waker: None, ..*old(self) }),
//@before: let ghost entry = *self;
//@loop:
    invariant
        *self == (Active { streams: self.streams, woken: self.woken, ..entry }),
        self.woken.logged(entry.woken),
        forall|id: StreamId| #[trigger] self.streams.view().dom().contains(id) ==> old(self).streams.view().dom().contains(id) && self.streams.view()[id] == old(self).streams.view()[id],
        forall|id: StreamId| #[trigger] old(self).streams.view().dom().contains(id) && !self.streams.view().dom().contains(id) ==>
            self.streams.gone().dom().contains(id) && self.streams.gone()[id] == old(self).streams.view()[id].ended()
            && self.woken.woke(old(self).streams.view()[id].reader) && self.woken.woke(old(self).streams.view()[id].writer),
    decreases self.streams.view().len()
//@end
//@fn connection.rs "Active<T>" close conn own
//@sig: fn close(self) -> Closing<T>
//@as: fn close(self) -> (r: Closing)
//@spec: ensures
        r.stream_receivers == self.stream_receivers, r.socket == self.socket,
        r.pending_frames@ =~= opt(self.pending_read_frame) + opt(self.pending_write_frame),
        Active::all_ended(r.streams, r.woken, self),
//@start_exec: let mut this = self;
//@end
//@fn connection.rs "Active<T>" cleanup conn own
//@sig: fn cleanup(self, error: ConnectionError) -> Cleanup
//@as: fn cleanup(self, error: ConnectionError) -> (r: Cleanup)
//@spec: ensures r.stream_receivers == self.stream_receivers, r.error == error, Active::all_ended(r.streams, r.woken, self),
//@start_exec: let mut this = self;
//@end

    // ---- streams that we open ----
    /// It is ours, and the peer has not acknowledged it.
    spec fn unacked(self, id: StreamId) -> bool { self.own(id) && self.streams.view()[id].state == State::Open { acknowledged: false } }
    spec fn backlog(self) -> nat { self.streams.view().dom().filter(|id: StreamId| self.unacked(id)).len() }
    spec fn pend(self, s: Seq<StreamId>) -> nat
        decreases s.len()
    { if s.len() == 0 { 0 } else { self.pend(s.drop_last()) + if self.unacked(s.last()) { 1nat } else { 0 } } }
    proof fn pend_is(self, s: Seq<StreamId>)
        requires s.no_duplicates()
        ensures self.pend(s) == s.to_set().filter(|id: StreamId| self.unacked(id)).len(), self.pend(s) <= s.len()
        decreases s.len()
    {
        let p = |id: StreamId| self.unacked(id);
        if s.len() == 0 {
            assert(s.to_set().filter(p) =~= Set::<StreamId>::empty());
        } else {
            let (a, x) = (s.drop_last(), s.last());
            self.pend_is(a);
            assert(!a.contains(x));
            assert(s.to_set() =~= a.to_set().insert(x)) by {
                assert forall|y: StreamId| s.contains(y) implies a.contains(y) || y == x by { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; if i < a.len() { assert(a[i] == y); } }
                assert forall|y: StreamId| a.contains(y) implies s.contains(y) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == y; assert(s[i] == y); }
                assert(s[s.len() - 1] == x);
            }
            if p(x) { assert(s.to_set().filter(p) =~= a.to_set().filter(p).insert(x)); } else { assert(s.to_set().filter(p) =~= a.to_set().filter(p)); }
        }
    }
    broadcast proof fn pend_one(self, s: Seq<StreamId>, n: int, m: int)
        requires 0 <= m < s.len(), n == m + 1
        ensures
            #![trigger self.pend(s.take(n)), s[m]]
            self.pend(s.take(n)) == self.pend(s.take(m)) + if self.unacked(s[m]) { 1nat } else { 0 }
    { assert(s.take(n).drop_last() =~= s.take(m)); }
    broadcast proof fn pend_all(self, s: Seq<StreamId>, n: int)
        requires s.no_duplicates(), s.to_set() =~= self.streams.view().dom()
        ensures
            #![trigger self.pend(s.take(n))]
            n == s.len() ==> self.pend(s.take(n)) == self.backlog(),
            n == 0 ==> self.pend(s.take(n)) == 0,
            0 <= n <= s.len() ==> self.pend(s.take(n)) <= n,
    {
        if n == s.len() { assert(s.take(n) =~= s); self.pend_is(s); }
        else if 0 <= n < s.len() { assert(s.take(n).no_duplicates()); self.pend_is(s.take(n)); }
    }
//@fn connection.rs "Active<T>" ack_backlog conn filter
//@sig: fn ack_backlog(&mut self) -> usize
//@as: fn ack_backlog(&mut self) -> (r: usize)
//@spec: ensures r == old(self).backlog(), *final(self) == *old(self),
//@start: broadcast use {Active::pend_one, Active::pend_all};
//@loop:
    invariant at <= keys.len(), found == self.pend(keys@.take(at as int)), found <= at,
        keys@.no_duplicates(), keys@.to_set() =~= self.streams.view().dom(), *self == *old(self),
    decreases keys.len() - at
//@end
//@fn connection.rs "Active<T>" poll_new_outbound conn poll
//@sig: fn poll_new_outbound(&mut self, cx: &mut Context<'_>) -> Poll<Result<Stream>>
//@as: fn poll_new_outbound(&mut self, cx: &mut Context) -> (r: Poll<Result<Stream, ConnectionError>>)
//@spec: requires old(self).wf(),
//@ensures:
        final(self).wf(),
//@ensures C10:
        final(cx).waker == old(cx).waker,
        // Too many streams, or too many that the peer did not acknowledge, or no more identifiers: nothing is opened.
        old(self).full() <==> r matches Poll::Ready(Err(ConnectionError::TooManyStreams)),
        !old(self).full() && old(self).backlog() >= 256 <==> r is Pending,
        r matches Poll::Ready(Err(e)) ==> *final(self) == *old(self) && (e is TooManyStreams || e is NoMoreStreamIds && old(self).next_id + 2 > u32::MAX),
        r is Pending ==> *final(self) == (Active { new_outbound_stream_waker: final(self).new_outbound_stream_waker, ..*old(self) }),
        r matches Poll::Ready(Ok(s)) ==> {
            &&& s.id.0 == old(self).next_id && final(self).next_id == old(self).next_id + 2
            &&& s.id.0 != 0 && old(self).own(s.id) && !old(self).streams.view().dom().contains(s.id)
            &&& s.flag is Syn && s.shared.fresh(DEFAULT_CREDIT, DEFAULT_CREDIT)
            &&& final(self).streams.view() =~= old(self).streams.view().insert(s.id, s.shared)
        },
//@ensures C15:
        // It waits only if it will be woken.
        r is Pending ==> final(self).new_outbound_stream_waker == Some(old(cx).waker),
        !(r is Pending) ==> final(self).new_outbound_stream_waker == old(self).new_outbound_stream_waker,
        final(self).logged(*old(self)),
        r matches Poll::Ready(Ok(s)) ==> final(self).no_streams_waker is None && final(self).woke(*old(self), old(self).no_streams_waker),
//@end

    // ---- the connection as a whole ----
    /// All that the streams asked for and is sent or waits to be.
    spec fn writes(self) -> Seq<Frame> { of(self.socket.sent(), 0) + opt(self.pending_write_frame) }
    /// All answers to the peer that are sent or wait to be.
    spec fn replies(self) -> Seq<Frame> { of(self.socket.sent(), 1) + opt(self.pending_read_frame) }
    spec fn slots(self) -> bool {
        &&& self.pending_write_frame matches Some(f) ==> class(f) == 0
        &&& self.pending_read_frame matches Some(f) ==> class(f) == 1
    }
    spec fn asked_for(self, o: Active) -> bool {
        due(self.writes(), o.writes(), self.stream_receivers.taken(), o.stream_receivers.taken().len() as int, self.streams.removed(), o.streams.removed().len() as int)
    }
    spec fn pinged(self, o: Active) -> bool {
        &&& o.rtt.pings().is_prefix_of(self.rtt.pings())
        &&& of(self.socket.sent(), 2) =~= of(o.socket.sent(), 2) + self.rtt.pings().skip(o.rtt.pings().len() as int)
    }
    spec fn same(self, o: Active) -> bool { self.id == o.id && self.mode == o.mode && self.config == o.config && self.next_id == o.next_id }
//@fn connection.rs "Active<T>" poll conn poll
//@sig: fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<Stream>>
//@as: #[verifier::exec_allows_no_decreases_clause] fn poll(&mut self, cx: &mut Context) -> (r: Poll<Result<Stream, ConnectionError>>)
//@spec:
    requires
        old(self).wf(), old(self).slots(),
        !old(self).socket.wwaited(), !old(self).socket.rwaited(), old(self).socket.error() is None, !old(self).socket.ended(),
//@ensures:
        !(r matches Poll::Ready(Err(_))) ==> final(self).wf() && final(self).same(*old(self)),
//@ensures C20 C20r C12 C13:
        !(r matches Poll::Ready(Err(_))) ==> final(self).slots(),
//@ensures C20 C12:
        // The streams' frames, in the order they were asked for, each once; also behind those that waited before.
        !(r matches Poll::Ready(Err(_))) ==> final(self).asked_for(*old(self)),
//@ensures C20r C13:
        !(r matches Poll::Ready(Err(_))) ==> answered(final(self).replies(), old(self).replies(), final(self).socket.got(), old(self).socket.got().len() as int),
        !(r matches Poll::Ready(Err(_))) ==> final(self).pinged(*old(self)),
//@ensures C20e:
        // Nothing is handed over and left there.
        r is Pending ==> !final(self).socket.dirty(),
        // The error of the socket is reported; its end, or the peer's goodbye, ends the connection; nothing else does.
        match r {
            Poll::Ready(Err(e)) => final(self).socket.error() == Some(e)
                || e is Closed && (final(self).socket.ended() || final(self).socket.got().len() > old(self).socket.got().len() && final(self).socket.got().last().header.kind is GoAway),
            _ => final(self).socket.error() is None && !final(self).socket.ended(),
        },
//@ensures C09:
        r matches Poll::Ready(Ok(s)) ==> s.flag is Ack && final(self).remote(s.id) && final(self).streams.view().dom().contains(s.id) && final(self).streams.view()[s.id] == s.shared,
//@ensures C15:
        // What it waits for wakes the task.
        final(cx).waker == old(cx).waker,
        r is Pending ==> {
            &&& final(self).pending_write_frame is Some || final(self).pending_read_frame is Some ==> final(self).socket.wwaited()
            &&& final(self).pending_read_frame is None ==> final(self).socket.rwaited()
            &&& final(self).pending_write_frame is None ==> final(self).stream_receivers.waited() || final(self).no_streams_waker == Some(old(cx).waker)
        },
        // Who waits to open a stream is woken when a stream was closed or dropped.
        final(self).logged(*old(self)),
        final(self).new_outbound_stream_waker == old(self).new_outbound_stream_waker
            || final(self).new_outbound_stream_waker is None && final(self).woke(*old(self), old(self).new_outbound_stream_waker),
        freed(final(self).stream_receivers.taken(), old(self).stream_receivers.taken().len() as int) ==> final(self).new_outbound_stream_waker is None,
//@start: broadcast use {of_push, due_more, answered_more, slot_sent, slot_empty, freed_more, group_skip, due_none, answered_none, freed_none};
//@loop:
    invariant
        self.wf(), self.same(*old(self)), self.socket.error() is None, !self.socket.ended(), cx.waker == old(cx).waker,
        old(self).stream_receivers.taken().len() <= self.stream_receivers.taken().len(),
        old(self).socket.got().len() <= self.socket.got().len(),
//@and C20 C20r C12 C13:
        self.slots(),
//@and C20 C12:
        self.asked_for(*old(self)),
//@and C20r C13:
        answered(self.replies(), old(self).replies(), self.socket.got(), old(self).socket.got().len() as int),
        self.pinged(*old(self)),
//@and C15:
        self.logged(*old(self)),
        self.new_outbound_stream_waker == old(self).new_outbound_stream_waker
            || self.new_outbound_stream_waker is None && self.woke(*old(self), old(self).new_outbound_stream_waker),
        freed(self.stream_receivers.taken(), old(self).stream_receivers.taken().len() as int) ==> self.new_outbound_stream_waker is None,
//@end
}
}
fn main() {}
