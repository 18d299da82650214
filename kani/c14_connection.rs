// C14 (attached to connection.rs): what the three calls on a connection answer, from every state.
//
// One call from an arbitrary state. Beneath, by their contracts: `Active::poll` (C20) and
// `Active::poll_new_outbound` (C10) answer anything; the socket and the streams' commands as in C20.
use super::verif_acc::*;
use super::*;
use vsupport::*;

/// What the active connection answered: 1 a stream, 2 pending, 3 and more an error. Register 1: identifier.
fn answer<T>(a: &Active<T>, cx: &Context<'_>, which: usize) -> Poll<Result<Stream>> {
    assert!(is_waker(&Some(cx.waker().clone()), TASK), "with the task of the caller");
    assert!(reg(0) == 0 && reg(2) == 0, "the connection is polled once");
    let k: u8 = kani::any();
    kani::assume(k < 7);
    set_reg(which, 1 + k as u64);
    match k {
        0 => {
            set_reg(1, kani::any::<u32>() as u64);
            let (tx, rx) = mpsc::channel(10);
            std::mem::forget(rx);
            Poll::Ready(Ok(Stream::new_inbound(
                StreamId::new(reg(1) as u32), a.id, a.config.clone(), 0, tx, a.rtt.clone(), a.accumulated_max_stream_windows.clone(),
            )))
        }
        1 => Poll::Pending,
        2 => Poll::Ready(Err(ConnectionError::Closed)),
        3 => Poll::Ready(Err(ConnectionError::Io(std::io::ErrorKind::BrokenPipe.into()))),
        4 => Poll::Ready(Err(ConnectionError::NoMoreStreamIds)),
        5 => Poll::Ready(Err(ConnectionError::TooManyStreams)),
        _ => Poll::Ready(Err(ConnectionError::Decode(crate::FrameDecodeError::Header(crate::HeaderDecodeError::Version(7))))),
    }
}
fn poll_contract<T: AsyncRead + AsyncWrite + Unpin>(a: &mut Active<T>, cx: &mut Context<'_>) -> Poll<Result<Stream>> {
    answer(a, cx, 0)
}
fn outbound_contract<T: AsyncRead + AsyncWrite + Unpin>(a: &mut Active<T>, cx: &mut Context<'_>) -> Poll<Result<Stream>> {
    answer(a, cx, 2)
}
/// The contract of `close` (C18): what waits to be sent is sent before the socket is closed.
fn close_contract<T: AsyncRead + AsyncWrite + Unpin>(a: Active<T>) -> Closing<T> {
    assert!(reg(3) == 0, "once");
    set_reg(3, 1);
    std::mem::forget((a.streams, a.config, a.rtt, a.accumulated_max_stream_windows, a.pending_read_frame, a.pending_write_frame));
    Closing::new(a.stream_receivers, VecDeque::new(), a.socket)
}
/// The error, as the number of the answer that it was.
fn kind(e: &ConnectionError) -> u64 {
    match e {
        ConnectionError::Closed => 3,
        ConnectionError::Io(_) => 4,
        ConnectionError::NoMoreStreamIds => 5,
        ConnectionError::TooManyStreams => 6,
        ConnectionError::Decode(_) => 7,
        _ => 8,
    }
}
#[derive(Clone, Copy, PartialEq)]
enum S {
    Active,
    Closing,
    Cleanup,
    Closed,
    Poisoned,
}
fn state<T>(c: &Connection<T>) -> S {
    match &c.inner {
        ConnectionState::Active(_) => S::Active,
        ConnectionState::Closing(_) => S::Closing,
        ConnectionState::Cleanup(_) => S::Cleanup,
        ConnectionState::Closed => S::Closed,
        ConnectionState::Poisoned => S::Poisoned,
    }
}
/// `k`: 0 active, 1 closing, 2 closed.
fn any_connection(k: u8) -> (std::mem::ManuallyDrop<Connection<NoIo>>, S) {
    let s = sock();
    s.on = true;
    s.streams_on = true;
    s.no_streams = true;
    s.ready_budget = 2;
    let inner = match k {
        0 => ConnectionState::Active(any_active(NoIo)),
        1 => {
            let mut c = Closing::new(SelectAll::default(), VecDeque::new(), futures::StreamExt::fuse(crate::frame::Io::new(Id::next(), NoIo)));
            crate::connection::closing::verif_acc::set_any_state(&mut c);
            ConnectionState::Closing(c)
        }
        _ => ConnectionState::Closed,
    };
    let c = Connection { inner };
    let st = state(&c);
    (std::mem::ManuallyDrop::new(c), st)
}
#[kani::proof]
#[kani::unwind(7)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
#[kani::stub(crate::connection::Active::poll, poll_contract)]
#[kani::stub(crate::connection::Active::poll_new_outbound, outbound_contract)]
fn c14_next_inbound_active() {
    next_inbound(0)
}
#[kani::proof]
#[kani::unwind(7)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
#[kani::stub(crate::connection::Active::poll, poll_contract)]
#[kani::stub(crate::connection::Active::poll_new_outbound, outbound_contract)]
fn c14_next_inbound_closing() {
    next_inbound(1)
}
#[kani::proof]
#[kani::unwind(7)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
#[kani::stub(crate::connection::Active::poll, poll_contract)]
#[kani::stub(crate::connection::Active::poll_new_outbound, outbound_contract)]
fn c14_next_inbound_closed() {
    next_inbound(2)
}
fn next_inbound(k: u8) {
    let (mut c, pre) = any_connection(k);
    let w = waker(TASK);
    let mut cx = Context::from_waker(&w);
    let r = std::mem::ManuallyDrop::new(c.poll_next_inbound(&mut cx));
    let post = state(&c);
    let s = sock();
    assert!(reg(2) == 0);
    match pre {
        S::Active => match (reg(0), &*r) {
            (1, Poll::Ready(Some(Ok(x)))) => assert!(x.id().val() as u64 == reg(1) && post == S::Active, "a new stream"),
            (2, Poll::Pending) => assert!(post == S::Active),
            (3, Poll::Ready(None)) => {
                assert!(post == S::Closed, "the end");
            }
            (k, Poll::Ready(Some(Err(e)))) => {
                assert!(k > 3 && kind(e) == k && post == S::Closed, "the error is reported once and ends the connection");
            }
            _ => assert!(false, "another answer than the connection's"),
        },
        S::Closing => {
            assert!(reg(0) == 0);
            match &*r {
                Poll::Ready(None) => {
                    assert!(s.closed && post == S::Closed);
                }
                Poll::Ready(Some(Err(ConnectionError::Io(_)))) => assert!(s.failed && post == S::Closed),
                Poll::Pending => assert!(s.write_pending && post == S::Closing),
                _ => assert!(false),
            }
        }
        _ => assert!(reg(0) == 0 && matches!(&*r, Poll::Ready(None)) && post == S::Closed, "a closed connection stays closed"),
    }
    kani::cover!(k != 0 || reg(0) == 1, "a stream");
    kani::cover!(k != 0 || (reg(0) == 3 && post == S::Closed), "the end");
    kani::cover!(k != 0 || (reg(0) > 3 && post == S::Closed), "an error");
    kani::cover!(k != 1 || r.is_pending(), "still closing");
    kani::cover!(k != 1 || matches!(&*r, Poll::Ready(None)), "closed");
}
#[kani::proof]
#[kani::unwind(7)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
#[kani::stub(crate::connection::Active::poll, poll_contract)]
#[kani::stub(crate::connection::Active::poll_new_outbound, outbound_contract)]
fn c14_new_outbound_active() {
    new_outbound(0)
}
#[kani::proof]
#[kani::unwind(7)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
#[kani::stub(crate::connection::Active::poll, poll_contract)]
#[kani::stub(crate::connection::Active::poll_new_outbound, outbound_contract)]
fn c14_new_outbound_closing() {
    new_outbound(1)
}
#[kani::proof]
#[kani::unwind(7)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
#[kani::stub(crate::connection::Active::poll, poll_contract)]
#[kani::stub(crate::connection::Active::poll_new_outbound, outbound_contract)]
fn c14_new_outbound_closed() {
    new_outbound(2)
}
fn new_outbound(k: u8) {
    let (mut c, pre) = any_connection(k);
    let w = waker(TASK);
    let mut cx = Context::from_waker(&w);
    let r = std::mem::ManuallyDrop::new(c.poll_new_outbound(&mut cx));
    let post = state(&c);
    let s = sock();
    assert!(reg(0) == 0);
    match pre {
        S::Active => match (reg(2), &*r) {
            (1, Poll::Ready(Ok(x))) => assert!(x.id().val() as u64 == reg(1) && post == S::Active, "a new stream"),
            (2, Poll::Pending) => assert!(post == S::Active),
            (k, Poll::Ready(Err(e))) => {
                assert!(k > 2 && kind(e) == k && post == S::Closed, "the error is reported and ends the connection");
            }
            _ => assert!(false, "another answer than the connection's"),
        },
        S::Closing => {
            assert!(reg(2) == 0);
            match &*r {
                Poll::Ready(Err(ConnectionError::Closed)) => assert!(s.closed && post == S::Closed),
                Poll::Ready(Err(ConnectionError::Io(_))) => assert!(s.failed && post == S::Closed),
                Poll::Pending => assert!(s.write_pending && post == S::Closing),
                _ => assert!(false),
            }
        }
        _ => assert!(reg(2) == 0 && matches!(&*r, Poll::Ready(Err(ConnectionError::Closed))) && post == S::Closed, "no streams on a closed connection"),
    }
    kani::cover!(k != 0 || reg(2) == 1, "a stream");
    kani::cover!(k != 0 || (reg(2) > 3 && post == S::Closed), "an error");
    kani::cover!(k != 1 || r.is_pending(), "still closing");
    kani::cover!(k != 1 || post == S::Closed, "closed");
}
#[kani::proof]
#[kani::unwind(7)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
#[kani::stub(crate::connection::Active::poll, poll_contract)]
#[kani::stub(crate::connection::Active::poll_new_outbound, outbound_contract)]
#[kani::stub(crate::connection::Active::close, close_contract)]
fn c14_close_active() {
    close(0)
}
#[kani::proof]
#[kani::unwind(7)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
#[kani::stub(crate::connection::Active::poll, poll_contract)]
#[kani::stub(crate::connection::Active::poll_new_outbound, outbound_contract)]
#[kani::stub(crate::connection::Active::close, close_contract)]
fn c14_close_closing() {
    close(1)
}
#[kani::proof]
#[kani::unwind(7)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
#[kani::stub(crate::connection::Active::poll, poll_contract)]
#[kani::stub(crate::connection::Active::poll_new_outbound, outbound_contract)]
#[kani::stub(crate::connection::Active::close, close_contract)]
fn c14_close_closed() {
    close(2)
}
fn close(k: u8) {
    let (mut c, pre) = any_connection(k);
    let w = waker(TASK);
    let mut cx = Context::from_waker(&w);
    let r = std::mem::ManuallyDrop::new(c.poll_close(&mut cx));
    let post = state(&c);
    let s = sock();
    assert!(reg(0) == 0 && reg(2) == 0);
    match &*r {
        Poll::Ready(Ok(())) => {
            assert!(post == S::Closed && (pre == S::Closed || s.closed), "closed means that the socket was closed");
        }
        Poll::Ready(Err(ConnectionError::Io(_))) => {
            assert!(post == S::Closed && s.failed && pre != S::Closed);
        }
        Poll::Pending => {
            assert!(post == S::Closing && s.write_pending && pre != S::Closed, "waits for the socket");
        }
        _ => assert!(false),
    }
    kani::cover!(matches!(&*r, Poll::Ready(Ok(()))), "closed");
    kani::cover!(k == 2 || r.is_pending(), "not yet");
    kani::cover!(k == 2 || matches!(&*r, Poll::Ready(Err(_))), "failed");
}
/// A connection that failed: whichever call comes first reports it, and it is closed.
#[kani::proof]
#[kani::unwind(7)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
#[kani::stub(crate::connection::Active::poll, poll_contract)]
#[kani::stub(crate::connection::Active::poll_new_outbound, outbound_contract)]
fn c14_failed() {
    let s = sock();
    s.on = true;
    s.streams_on = true;
    s.no_streams = kani::any();
    s.command_budget = 1;
    let closed: bool = kani::any();
    let e = if closed { ConnectionError::Closed } else { ConnectionError::TooManyStreams };
    let mut c = std::mem::ManuallyDrop::new(Connection::<NoIo> { inner: ConnectionState::Cleanup(Cleanup::new(SelectAll::default(), e)) });
    let w = waker(TASK);
    let mut cx = Context::from_waker(&w);
    match kani::any::<u8>() {
        0 => match &*std::mem::ManuallyDrop::new(c.poll_next_inbound(&mut cx)) {
            Poll::Ready(None) => assert!(closed),
            Poll::Ready(Some(Err(ConnectionError::TooManyStreams))) => assert!(!closed),
            _ => assert!(false),
        },
        1 => match &*std::mem::ManuallyDrop::new(c.poll_new_outbound(&mut cx)) {
            Poll::Ready(Err(ConnectionError::Closed)) => assert!(closed),
            Poll::Ready(Err(ConnectionError::TooManyStreams)) => assert!(!closed),
            _ => assert!(false),
        },
        _ => assert!(matches!(&*std::mem::ManuallyDrop::new(c.poll_close(&mut cx)), Poll::Ready(Ok(())))),
    }
    assert!(state(&c) == S::Closed && s.sent == 0);
}
