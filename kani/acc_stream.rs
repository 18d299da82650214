// Appended to connection/stream.rs: arbitrary values of the private types.
use super::*;
pub(crate) use super::flow_control::verif_acc as fa;
use crate::connection::rtt::verif_acc as ra;
use vsupport::*;
use web_time::{Duration, Instant};

pub(crate) const READER: usize = 0;
pub(crate) const WRITER: usize = 1;

pub(crate) fn any_state() -> State {
    let s: u8 = kani::any();
    kani::assume(s < 5);
    match s {
        0 => State::Open { acknowledged: false },
        1 => State::Open { acknowledged: true },
        2 => State::SendClosed,
        3 => State::RecvClosed,
        _ => State::Closed,
    }
}
/// Any configuration that the setters accept.
pub(crate) fn any_config() -> Config {
    let mut c = Config::default();
    c.max_num_streams = kani::any();
    c.max_connection_receive_window = if kani::any() { Some(kani::any()) } else { None };
    c.read_after_close = kani::any();
    c.split_send_size = kani::any();
    kani::assume(c.max_num_streams <= (usize::MAX >> 18));
    kani::assume(c.max_connection_receive_window.unwrap_or(usize::MAX) >= c.max_num_streams * DEFAULT_CREDIT as usize);
    c
}
pub(crate) fn any_duration() -> Duration {
    let s: u64 = kani::any();
    let n: u32 = kani::any();
    kani::assume(s < (1 << 33) && n < 1_000_000_000);
    Duration::new(s, n)
}
pub(crate) fn opt_waker(i: usize) -> Option<Waker> {
    if kani::any() { Some(waker(i)) } else { None }
}
/// Any clock readings for the round-trip time estimator.
pub(crate) fn any_rtt() -> Rtt {
    let r = Rtt::new();
    if kani::any() {
        ra::set_rtt(&r, Some(any_duration()));
    }
    if kani::any() {
        let at = Instant::now();
        ra::set_awaiting(&r, at, kani::any());
    }
    ra::set_next_id(&r, kani::any());
    r
}
/// A stream half with arbitrary state, windows and parked tasks and an empty buffer.
///
/// The flow controller invariants are those of `FlowController` itself, for a buffer of `buffered`
/// bytes.
pub(crate) fn any_shared(config: &Arc<Config>, rtt: &Rtt, acc: &Arc<Mutex<usize>>) -> Shared {
    let mut s = Shared::new(DEFAULT_CREDIT, DEFAULT_CREDIT, acc.clone(), rtt.clone(), config.clone());
    let recv: u32 = kani::any();
    let max: u32 = kani::any();
    kani::assume(max >= DEFAULT_CREDIT && recv <= max);
    fa::set(&mut s.flow_controller, recv, max, kani::any());
    s.state = any_state();
    s.reader = opt_waker(READER);
    s.writer = opt_waker(WRITER);
    s
}
/// Snapshot of everything observable in a stream half (apart from the buffer contents).
#[derive(Clone, Copy, PartialEq)]
pub(crate) struct Snap {
    pub state: State,
    pub recv: u32,
    pub max: u32,
    pub send: u32,
    pub buffered: usize,
    pub reader: bool,
    pub writer: bool,
}
pub(crate) fn snap(s: &Shared) -> Snap {
    Snap {
        state: s.state,
        recv: fa::recv(&s.flow_controller),
        max: fa::max(&s.flow_controller),
        send: fa::send(&s.flow_controller),
        buffered: s.buffer.len(),
        reader: is_waker(&s.reader, READER),
        writer: is_waker(&s.writer, WRITER),
    }
}
pub(crate) fn any_flag() -> Flag {
    let f: u8 = kani::any();
    kani::assume(f < 3);
    match f {
        0 => Flag::None,
        1 => Flag::Syn,
        _ => Flag::Ack,
    }
}

/// The budget shared by all streams of a connection: how much all windows together exceed the
/// default. At least what this stream's window does, at most what the configuration leaves.
pub(crate) fn any_acc(c: &Config, at_least: usize) -> usize {
    let a: usize = kani::any();
    kani::assume(a >= at_least);
    kani::assume(a <= c.max_connection_receive_window.unwrap_or(usize::MAX) - c.max_num_streams * DEFAULT_CREDIT as usize);
    a
}
pub(crate) fn fc(s: &Shared) -> &FlowController {
    &s.flow_controller
}
pub(crate) fn fc_mut(s: &mut Shared) -> &mut FlowController {
    &mut s.flow_controller
}
pub(crate) fn set_state(s: &mut Shared, st: State) {
    s.state = st
}
pub(crate) fn flag(s: &Stream) -> Flag {
    s.flag
}
pub(crate) fn sender(s: &Stream) -> &mpsc::Sender<StreamCommand> {
    &s.sender
}
pub(crate) fn arc(s: &Stream) -> &Arc<Mutex<Shared>> {
    &s.shared
}
/// A stream with everything arbitrary and an empty buffer, and its channel's receiver.
pub(crate) fn any_stream() -> (Stream, mpsc::Receiver<StreamCommand>) {
    let config = Arc::new(any_config());
    let rtt = any_rtt();
    let acc = Arc::new(Mutex::new(0));
    let (tx, rx) = mpsc::channel(10);
    tx.chan().parked = kani::any();
    tx.chan().closed = kani::any();
    let mut s = Stream::new_outbound(StreamId::new(kani::any()), connection::Id::next(), config.clone(), tx, rtt.clone(), acc.clone());
    s.flag = any_flag();
    {
        let mut sh = s.shared.lock();
        let (recv, max): (u32, u32) = (kani::any(), kani::any());
        kani::assume(max >= DEFAULT_CREDIT && recv <= max);
        fa::set(&mut sh.flow_controller, recv, max, kani::any());
        sh.state = any_state();
        sh.reader = opt_waker(READER);
        sh.writer = opt_waker(WRITER);
        let a = any_acc(&config, (max - DEFAULT_CREDIT) as usize);
        if max > DEFAULT_CREDIT {
            ra::set_rtt(&rtt, Some(any_duration()));
        }
        *acc.lock() = a;
    }
    (s, rx)
}
/// Are the arithmetic invariants of the flow controller intact (for the bytes now buffered)?
pub(crate) fn fc_ok(s: &Shared) -> bool {
    let f = &s.flow_controller;
    fa::max(f) >= DEFAULT_CREDIT && s.buffer.len() as u64 + fa::recv(f) as u64 <= fa::max(f) as u64
}

/// The tasks of the harness: the one that polls.
pub(crate) const TASK: usize = 4;

#[derive(Clone, Copy, PartialEq)]
pub(crate) enum Res {
    Ok(usize),
    /// End of stream (`poll_next` only).
    End,
    Err,
    Pending,
}
#[derive(Clone, Copy, PartialEq)]
pub(crate) enum Kind {
    Data,
    WindowUpdate,
    Close(bool),
}
/// A command in the stream's channel.
#[derive(Clone, Copy)]
pub(crate) struct Sent {
    pub kind: Kind,
    pub id: u32,
    pub flags: u16,
    pub len: u32,
    pub body: usize,
}
impl Sent {
    pub fn has(&self, f: u16) -> bool {
        self.flags & f != 0
    }
}
fn sent(c: &Option<StreamCommand>) -> Option<Sent> {
    match c {
        None => None,
        Some(StreamCommand::CloseStream { ack }) => Some(Sent { kind: Kind::Close(*ack), id: 0, flags: 0, len: 0, body: 0 }),
        Some(StreamCommand::SendFrame(f)) => {
            let h = f.header();
            let kind = match h.tag() {
                crate::frame::header::Tag::Data => Kind::Data,
                crate::frame::header::Tag::WindowUpdate => Kind::WindowUpdate,
                _ => panic!("streams send data and window updates only"),
            };
            Some(Sent { kind, id: h.stream_id().val(), flags: h.flags().val(), len: h.len().val(), body: crate::frame::verif_acc::body(f).len() })
        }
    }
}
#[derive(Clone, Copy, PartialEq)]
pub(crate) enum Op {
    Write,
    Read,
    Next,
    Flush,
    Close,
}
/// One call on an arbitrary stream: everything observable before and after.
///
/// Arbitrary: identifier, configuration, state, windows, flag, number of buffered bytes, parked
/// tasks, clock, round-trip time, shared window budget, the state of the channel to the connection.
pub(crate) struct Call {
    pub op: Op,
    pub id: u32,
    pub size: usize,
    pub split: usize,
    pub rac: bool,
    pub limit: Option<usize>,
    pub streams: usize,
    pub closed: bool,
    pub full: bool,
    pub flag: Flag,
    pub pre: Snap,
    pub acc: usize,
    pub res: Res,
    pub post: Snap,
    pub post_flag: Flag,
    pub post_acc: usize,
    pub count: usize,
    pub sent: Option<Sent>,
    /// The polling task is registered with the stream to read / to write, with the channel.
    pub waits_read: bool,
    pub waits_write: bool,
    pub waits_chan: bool,
    /// The task of the connection was woken.
    pub conn_parked: bool,
    pub conn_woken: u32,
}
/// The task of the connection, parked in the channel's receiver.
pub(crate) const CONN: usize = 5;

/// `size`: what is read into or written from. `buffered`: pretend that bytes are buffered.
pub(crate) fn call(op: Op, size: usize, buffered: bool) -> Call {
    let (mut s, rx) = any_stream();
    kani::assume(s.config.max_num_streams > 0);
    rx.chan().recv_task = opt_waker(CONN);
    if buffered {
        let b: usize = kani::any();
        let mut sh = s.shared.lock();
        let max = fa::max(&sh.flow_controller) as usize;
        kani::assume(b <= max && b + fa::recv(&sh.flow_controller) as usize <= max);
        crate::chunks::verif_acc::pretend(&mut sh.buffer, b);
    } else {
        let sh = s.shared.lock();
        kani::assume(fa::recv(&sh.flow_controller) <= fa::max(&sh.flow_controller));
    }
    let pre = snap(&s.shared());
    let acc = *fa::acc(&s.shared().flow_controller).lock();
    let (closed, full, flag) = (rx.chan().closed, rx.chan().parked, s.flag);
    let conn_parked = rx.chan().recv_task.is_some();
    let w = waker(TASK);
    let mut cx = Context::from_waker(&w);
    let res = match op {
        Op::Write => {
            let buf = std::mem::ManuallyDrop::new(opaque_vec(size));
            match &*std::mem::ManuallyDrop::new(Pin::new(&mut s).poll_write(&mut cx, &buf)) {
                Poll::Ready(Ok(n)) => Res::Ok(*n),
                Poll::Ready(Err(e)) => {
                    assert!(e.kind() == io::ErrorKind::WriteZero);
                    Res::Err
                }
                Poll::Pending => Res::Pending,
            }
        }
        Op::Read => {
            let mut buf = std::mem::ManuallyDrop::new(opaque_vec(size));
            match &*std::mem::ManuallyDrop::new(Pin::new(&mut s).poll_read(&mut cx, &mut buf)) {
                Poll::Ready(Ok(n)) => Res::Ok(*n),
                Poll::Ready(Err(_)) => Res::Err,
                Poll::Pending => Res::Pending,
            }
        }
        Op::Next => match &*std::mem::ManuallyDrop::new(futures::stream::Stream::poll_next(Pin::new(&mut s), &mut cx)) {
            Poll::Ready(Some(Ok(p))) => Res::Ok(p.0.len()),
            Poll::Ready(Some(Err(_))) => Res::Err,
            Poll::Ready(None) => Res::End,
            Poll::Pending => Res::Pending,
        },
        Op::Flush => match &*std::mem::ManuallyDrop::new(Pin::new(&mut s).poll_flush(&mut cx)) {
            Poll::Ready(Ok(())) => Res::Ok(0),
            Poll::Ready(Err(_)) => Res::Err,
            Poll::Pending => Res::Pending,
        },
        Op::Close => match &*std::mem::ManuallyDrop::new(Pin::new(&mut s).poll_close(&mut cx)) {
            Poll::Ready(Ok(())) => Res::Ok(0),
            Poll::Ready(Err(_)) => Res::Err,
            Poll::Pending => Res::Pending,
        },
    };
    let post = snap(&s.shared());
    let post_acc = *fa::acc(&s.shared().flow_controller).lock();
    let waits_read = is_waker(&s.shared().reader, TASK);
    let waits_write = is_waker(&s.shared().writer, TASK);
    let c = Call {
        op, id: s.id.val(), size, split: s.config.split_send_size, rac: s.config.read_after_close,
        limit: s.config.max_connection_receive_window, streams: s.config.max_num_streams,
        closed, full, flag, pre, acc, res, post, post_flag: s.flag,
        post_acc,
        count: rx.chan().n(), sent: sent(&rx.chan().q0),
        waits_read,
        waits_write,
        waits_chan: is_waker(&rx.chan().send_task, TASK),
        conn_parked, conn_woken: woken(CONN),
    };
    std::mem::forget((s, rx));
    c
}
