// Appended to connection.rs: arbitrary connections.
use super::*;
pub(crate) use super::stream::verif_acc as sa;
pub(crate) use super::rtt::verif_acc as ra;
pub(crate) use crate::frame::verif_acc as fra;
pub(crate) use crate::tagged_stream::verif_acc as ta;
use sa::fa;
use vsupport::*;

pub(crate) const NO_STREAMS: usize = 2;
pub(crate) const OUTBOUND: usize = 3;
pub(crate) const TASK: usize = 4;

/// A socket that is never ready.
pub(crate) struct NoIo;
impl AsyncRead for NoIo {
    fn poll_read(self: std::pin::Pin<&mut Self>, _: &mut Context<'_>, _: &mut [u8]) -> Poll<std::io::Result<usize>> { Poll::Pending }
}
impl AsyncWrite for NoIo {
    fn poll_write(self: std::pin::Pin<&mut Self>, _: &mut Context<'_>, _: &[u8]) -> Poll<std::io::Result<usize>> { Poll::Pending }
    fn poll_flush(self: std::pin::Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Pending }
    fn poll_close(self: std::pin::Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Pending }
}
pub(crate) fn any_mode() -> Mode {
    if kani::any() { Mode::Client } else { Mode::Server }
}
/// A connection with an arbitrary role and configuration, arbitrary parked tasks and no stream that
/// is named explicitly (but any number of streams known only by their number, at most the limit).
pub(crate) fn any_active<T: AsyncRead + AsyncWrite + Unpin>(io: T) -> Active<T> {
    let mut a = Active::new(io, sa::any_config(), any_mode());
    a.no_streams_waker = sa::opt_waker(NO_STREAMS);
    a.new_outbound_stream_waker = sa::opt_waker(OUTBOUND);
    a.streams.extra = kani::any();
    kani::assume(a.streams.extra <= a.config.max_num_streams);
    a
}
/// Add a stream with the given identifier and everything else arbitrary.
///
/// `buffered`: the number of bytes in its buffer.
pub(crate) fn add_stream<T>(a: &mut Active<T>, id: StreamId) -> Arc<Mutex<stream::Shared>> {
    let s = sa::any_shared(&a.config, &a.rtt, &a.accumulated_max_stream_windows);
    let s = Arc::new(Mutex::new(s));
    a.streams.insert(id, s.clone());
    kani::assume(a.streams.len() <= a.config.max_num_streams);
    // Never subtracted from in these harnesses (nothing is dropped).
    s
}
/// Any number of bytes in the buffer of a stream (no content: it must never be looked at).
pub(crate) fn any_buffered(s: &Arc<Mutex<stream::Shared>>) {
    let b: usize = kani::any();
    let mut s = s.lock();
    let max = fa::max(sa::fc(&s)) as usize;
    kani::assume(b <= max && b + fa::recv(sa::fc(&s)) as usize <= max);
    crate::chunks::verif_acc::pretend(&mut s.buffer, b);
}
pub(crate) fn remote_parity<T>(a: &Active<T>, id: u32) -> bool {
    match a.mode {
        Mode::Client => id % 2 == 0,
        Mode::Server => id % 2 == 1,
    }
}
/// The GoAway code of a termination.
pub(crate) fn go_away(a: &Result<Action>) -> Option<u32> {
    match a {
        Ok(Action::Terminate(f)) => {
            assert!(f.header().tag() == Tag::GoAway && f.header().stream_id().val() == 0);
            Some(f.header().len().val())
        }
        _ => None,
    }
}
pub(crate) fn is_none(a: &Result<Action>) -> bool {
    matches!(a, Ok(Action::None))
}

#[derive(Clone, Copy, PartialEq)]
pub(crate) enum Out {
    Nothing,
    New,
    Pong,
    Bye,
    Err,
}
/// What a stream handed to the application looks like.
#[derive(Clone, Copy)]
pub(crate) struct Fresh {
    pub id: u32,
    pub ack_due: bool,
    pub s: sa::Snap,
    /// It is the map's entry for that identifier.
    pub linked: bool,
    /// The one new receiver is tagged with that identifier and is the other end of its channel.
    pub wired: bool,
}
/// One inbound frame handled by a connection: everything observable before and after.
///
/// The connection has arbitrary role, configuration and parked tasks, any number of streams that
/// are known by number only, and one named stream with arbitrary identifier, state, windows and
/// parked tasks and an arbitrary amount of buffered bytes.
pub(crate) struct Scene {
    pub server: bool,
    pub id: u32,
    pub flags: u16,
    pub len: u32,
    pub body: usize,
    pub key: u32,
    pub known: bool,
    pub n: usize,
    pub limit: usize,
    pub outbound_parked: bool,
    pub no_streams_parked: bool,
    pub awaiting: Option<u32>,
    pub pre: sa::Snap,
    pub out: Out,
    pub code: u32,
    pub pong: u32,
    pub post: sa::Snap,
    pub post_n: usize,
    pub receivers: usize,
    pub still_there: bool,
    pub still_awaiting: Option<u32>,
    pub outbound_left: bool,
    pub no_streams_left: bool,
    pub fresh: Option<Fresh>,
    pub woken_reader: u32,
    pub woken_writer: u32,
    pub woken_outbound: u32,
    pub woken_no_streams: u32,
}
impl Scene {
    pub fn has(&self, f: u16) -> bool {
        self.flags & f != 0
    }
    pub fn unchanged(&self) -> bool {
        self.post == self.pre && self.still_there && self.woken_reader == 0 && self.woken_writer == 0
    }
    pub fn valid_remote(&self) -> bool {
        // Odd identifiers belong to clients, even ones to servers; 0 is the session itself.
        self.id != 0 && (self.id % 2 == 1) == self.server
    }
}
pub(crate) fn scene(tag: u8, buffered: bool) -> Scene {
    let mut a = any_active(NoIo);
    let awaiting: Option<u32> = if kani::any() { Some(kani::any()) } else { None };
    if let Some(i) = awaiting {
        let at = web_time::Instant::now();
        ra::set_awaiting(&a.rtt, at, i);
    }
    let key: u32 = kani::any();
    let arc = add_stream(&mut a, StreamId::new(key));
    if buffered {
        any_buffered(&arc);
    }
    let f = fra::any_frame(tag);
    match split() {
        1 => kani::assume(fra::has(&f, fra::SYN)),
        2 => kani::assume(!fra::has(&f, fra::SYN)),
        _ => {}
    }
    let (id, flags, len) = (f.header().stream_id().val(), f.header().flags().val(), f.header().len().val());
    let body = fra::body(&f).len();
    let pre = sa::snap(&arc.lock());
    let (n, limit) = (a.streams.len(), a.config.max_num_streams);
    let (op, np) = (a.new_outbound_stream_waker.is_some(), a.no_streams_waker.is_some());
    let server = matches!(a.mode, Mode::Server);
    let r = a.on_frame(f);
    let (mut out, mut code, mut pong, mut fresh) = (Out::Err, 0, 0, None);
    match &r {
        Ok(Action::None) => out = Out::Nothing,
        Ok(Action::New(s)) => {
            out = Out::New;
            let linked = match a.streams.get(&s.id()) {
                Some(e) => Arc::ptr_eq(e, sa::arc(s)),
                None => false,
            };
            let wired = match &a.stream_receivers.s0 {
                Some(t) => ta::key(t) == s.id() && std::ptr::eq(ta::inner(t).chan(), sa::sender(s).chan()),
                None => false,
            };
            let sh = s.shared();
            fresh = Some(Fresh { id: s.id().val(), ack_due: sa::flag(s) == stream::Flag::Ack, s: sa::snap(&sh), linked, wired });
        }
        Ok(Action::Ping(f)) => {
            out = Out::Pong;
            assert!(f.header().tag() == Tag::Ping && f.header().flags().val() == 2 && f.header().stream_id().val() == 0);
            pong = f.header().len().val();
        }
        Ok(Action::Terminate(f)) => {
            out = Out::Bye;
            assert!(f.header().tag() == Tag::GoAway && f.header().stream_id().val() == 0 && f.header().flags().val() == 0);
            code = f.header().len().val();
        }
        Err(e) => {
            assert!(matches!(e, ConnectionError::Closed));
        }
    }
    let post = sa::snap(&arc.lock());
    let still_there = match a.streams.get(&StreamId::new(key)) {
        Some(e) => Arc::ptr_eq(e, &arc),
        None => false,
    };
    let sc = Scene {
        server, id, flags, len, body, key, known: key == id, n, limit,
        outbound_parked: op, no_streams_parked: np, awaiting, pre, out, code, pong, post,
        post_n: a.streams.len(), receivers: a.stream_receivers.len(), still_there,
        still_awaiting: ra::awaiting(&a.rtt).map(|x| x.1),
        outbound_left: a.new_outbound_stream_waker.is_some(), no_streams_left: a.no_streams_waker.is_some(),
        fresh, woken_reader: woken(sa::READER), woken_writer: woken(sa::WRITER),
        woken_outbound: woken(OUTBOUND), woken_no_streams: woken(NO_STREAMS),
    };
    std::mem::forget((a, arc, r));
    sc
}

/// The five numbers of a frame as a tuple (compared without a loop).
pub(crate) type Num = (u64, u64, u64, u64, u64);
pub(crate) fn tuple(x: [u64; 5]) -> Num {
    (x[0], x[1], x[2], x[3], x[4])
}
pub(crate) fn num(f: &Option<Frame<()>>) -> Option<Num> {
    f.as_ref().map(|f| tuple(fra::numbers(f)))
}
/// The `i`-th frame sent.
pub(crate) fn sent_frame(i: usize) -> Num {
    tuple(sock().log[i])
}

impl AnyKey for StreamId {
    fn any() -> Self {
        StreamId::new(kani::any())
    }
    fn num(&self) -> u64 {
        self.val() as u64
    }
}
/// What a stream sends to its connection.
impl AnyCommand for StreamCommand {
    fn any(key: u64) -> Self {
        let id = StreamId::new(key as u32);
        match kani::any::<u8>() {
            0 => StreamCommand::CloseStream { ack: kani::any() },
            1 => {
                let mut f = Frame::window_update(id, kani::any());
                if kani::any() {
                    f.header_mut().ack();
                }
                StreamCommand::SendFrame(f.right())
            }
            _ => {
                let mut f = Frame::new(Header::data(id, kani::any()));
                if kani::any() {
                    f.header_mut().syn();
                }
                if kani::any() {
                    f.header_mut().fin();
                }
                StreamCommand::SendFrame(f.left())
            }
        }
    }
    fn record(&self) -> [u64; 6] {
        match self {
            StreamCommand::CloseStream { ack } => [1 + *ack as u64, 0, 0, 0, 0, 0],
            StreamCommand::SendFrame(f) => {
                let n = fra::numbers(f);
                [3, n[0], n[1], n[2], n[3], n[4]]
            }
        }
    }
}
/// The frame that the `i`-th command asks for; `None` for the end of the stream.
pub(crate) fn asked(i: usize) -> Option<Num> {
    let c = sock().command[i];
    match c[0] {
        0 => None,
        1 => Some((0, 4, c[3], 0, 0)),
        2 => Some((0, 6, c[3], 0, 0)),
        _ => Some((c[1], c[2], c[3], c[4], c[5])),
    }
}

/// Data frames are handled by two contracts, one for frames with SYN and one for frames without (an order
/// of magnitude cheaper than both at once). `Flags::contains` answers from the case at hand, which the
/// scene assumes of the frame, ...
pub(crate) fn contains_split(f: header::Flags, o: header::Flags) -> bool {
    if o == header::SYN {
        match split() {
            1 => return true,
            2 => return false,
            _ => {}
        }
    }
    f.val() & o.val() == o.val()
}
/// ... and the first body of a stream meets `consume_receive_window` by its contract for bodies that
/// fit (C07). One that does not fit leaves the decision to the contract that is not split.
pub(crate) fn consume_split(s: &mut stream::Shared, n: u32) -> Result<()> {
    if split() == 1 {
        let (recv, max, send) = (fa::recv(sa::fc(s)), fa::max(sa::fc(s)), fa::send(sa::fc(s)));
        assert!(n <= recv, "verification model: the first body fits into the window");
        fa::set(sa::fc_mut(s), recv - n, max, send);
        return Ok(());
    }
    sa::fc_mut(s).consume_receive_window(n)
}
/// The contract `$check` on what a data frame does, whole (`slow`) or split by SYN.
macro_rules! on_data {
    ($whole:ident, $syn:ident, $rest:ident, $buffered:expr, $check:expr) => {
        #[cfg(feature = "slow")]
        #[kani::proof]
        #[kani::unwind(2)]
        #[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
        fn $whole() {
            ($check)(scene(0, $buffered))
        }
        #[cfg(not(feature = "slow"))]
        #[kani::proof]
        #[kani::unwind(2)]
        #[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
        #[kani::stub(crate::frame::header::Flags::contains, contains_split)]
        #[kani::stub(crate::connection::stream::Shared::consume_receive_window, consume_split)]
        fn $syn() {
            vsupport::set_split(1);
            ($check)(scene(0, $buffered))
        }
        #[cfg(not(feature = "slow"))]
        #[kani::proof]
        #[kani::unwind(2)]
        #[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
        #[kani::stub(crate::frame::header::Flags::contains, contains_split)]
        #[kani::stub(crate::connection::stream::Shared::consume_receive_window, consume_split)]
        fn $rest() {
            vsupport::set_split(2);
            ($check)(scene(0, $buffered))
        }
    };
}
pub(crate) use on_data;
