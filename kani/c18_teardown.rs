// C18 (attached to connection.rs): closing or losing a connection ends all of its streams.
use super::verif_acc::*;
use super::*;
use stream::State;
use vsupport::*;

struct Two {
    s: [Arc<Mutex<stream::Shared>>; 2],
    reader: [bool; 2],
    writer: [bool; 2],
    buffered: [usize; 2],
}
/// Two arbitrary streams, each with its own parked tasks (wakers 0 to 3), and their channels.
fn two<T: AsyncRead + AsyncWrite + Unpin>(a: &mut Active<T>) -> Two {
    let (k1, k2): (u32, u32) = (kani::any(), kani::any());
    kani::assume(k1 != k2);
    let x = add_stream(a, StreamId::new(k1));
    let y = add_stream(a, StreamId::new(k2));
    a.streams.extra = 0;
    a.no_streams_waker = None;
    a.new_outbound_stream_waker = sa::opt_waker(TASK);
    {
        let mut x = x.lock();
        x.reader = sa::opt_waker(0);
        x.writer = sa::opt_waker(1);
        crate::chunks::verif_acc::pretend(&mut x.buffer, kani::any());
        let mut y = y.lock();
        y.reader = sa::opt_waker(2);
        y.writer = sa::opt_waker(3);
    }
    let (px, py) = (x.lock().buffer.len(), y.lock().buffer.len());
    let r = [x.lock().reader.is_some(), y.lock().reader.is_some()];
    let w = [x.lock().writer.is_some(), y.lock().writer.is_some()];
    Two { s: [x, y], reader: r, writer: w, buffered: [px, py] }
}
/// Both streams are closed, everybody who waited is woken, what was buffered can still be read.
fn ended(t: &Two, opener: bool) {
    assert!(t.s[0].lock().state() == State::Closed, "every stream is closed");
    assert!(t.s[1].lock().state() == State::Closed, "every stream is closed");
    assert!(woken(0) == t.reader[0] as u32 && woken(2) == t.reader[1] as u32, "readers are woken");
    assert!(woken(1) == t.writer[0] as u32 && woken(3) == t.writer[1] as u32, "writers are woken");
    assert!(t.s[0].lock().buffer.len() == t.buffered[0]);
    assert!(t.s[1].lock().buffer.len() == t.buffered[1]);
    assert!(!opener || woken(TASK) > 0, "the task that waits to open a stream is woken");
}
fn frame(i: u32) -> Option<Frame<()>> {
    if kani::any() { Some(Frame::new(Header::data(StreamId::new(i), kani::any())).into()) } else { None }
}
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c18_drop_all() {
    let mut a = any_active(NoIo);
    let t = two(&mut a);
    let opener = a.new_outbound_stream_waker.is_some();
    a.drop_all_streams();
    ended(&t, opener);
    assert!(a.streams.is_empty());
    std::mem::forget((a, t));
}
/// An error on the connection.
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c18_cleanup() {
    let mut a = any_active(NoIo);
    sock().streams_on = true;
    sock().no_streams = kani::any();
    let t = two(&mut a);
    let opener = a.new_outbound_stream_waker.is_some();
    let (tx1, rx1) = mpsc::channel(10);
    let (tx2, rx2) = mpsc::channel(10);
    a.stream_receivers.push(TaggedStream::new(StreamId::new(1), rx1));
    a.stream_receivers.push(TaggedStream::new(StreamId::new(2), rx2));
    let mut c = a.cleanup(ConnectionError::NoMoreStreamIds);
    ended(&t, opener);
    let w = waker(5);
    let mut cx = Context::from_waker(&w);
    let r = std::mem::ManuallyDrop::new(c.poll_unpin(&mut cx));
    assert!(matches!(&*r, Poll::Ready(ConnectionError::NoMoreStreamIds)), "the error is reported");
    assert!(tx1.is_closed() && tx2.is_closed(), "writes fail from now on");
    std::mem::forget((c, t, tx1, tx2));
}
/// Closing.
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c18_close() {
    let mut a = any_active(NoIo);
    let t = two(&mut a);
    let opener = a.new_outbound_stream_waker.is_some();
    a.pending_read_frame = frame(0);
    a.pending_write_frame = frame(1);
    let (r0, w0) = (num(&a.pending_read_frame), num(&a.pending_write_frame));
    let c = a.close();
    ended(&t, opener);
    let p = crate::connection::closing::verif_acc::pending(&c);
    assert!(p.len() == r0.is_some() as usize + w0.is_some() as usize, "what waits to be sent is kept");
    if r0.is_some() {
        assert!(Some(tuple(fra::numbers(&p[0]))) == r0);
    }
    if w0.is_some() {
        assert!(Some(tuple(fra::numbers(&p[r0.is_some() as usize]))) == w0);
    }
    std::mem::forget((c, t));
}
/// A connection that is simply dropped.
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c18_dropped() {
    let mut a = any_active(NoIo);
    let t = two(&mut a);
    let opener = a.new_outbound_stream_waker.is_some();
    let c = Connection { inner: ConnectionState::Active(a) };
    drop(c);
    ended(&t, opener);
    std::mem::forget(t);
}
