// C15 (attached to connection.rs): a stream that the application closes or drops makes room for the
// task that waits to open one.
use super::verif_acc::*;
use super::*;
use vsupport::*;

/// The contract of `on_drop_stream` (C12): it wakes the task that waits to open a stream.
fn on_drop_stream_contract<T: AsyncRead + AsyncWrite + Unpin>(a: &mut Active<T>, id: StreamId) -> Option<Frame<()>> {
    if let Some(w) = a.new_outbound_stream_waker.take() {
        w.wake()
    }
    if kani::any() { Some(Frame::new(Header::data(id, 0)).into()) } else { None }
}
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
#[kani::stub(crate::connection::Active::on_drop_stream, on_drop_stream_contract)]
fn c15_command() {
    let s = sock();
    s.on = true;
    s.streams_on = true;
    s.ready_budget = 1;
    s.command_budget = 1;
    let mut a = any_active(NoIo);
    ra::set_awaiting(&a.rtt, web_time::Instant::now(), 0);
    let parked = a.new_outbound_stream_waker.is_some();
    let w = waker(TASK);
    let mut cx = Context::from_waker(&w);
    let r = std::mem::ManuallyDrop::new(a.poll(&mut cx));
    assert!(!parked || a.new_outbound_stream_waker.is_some() || woken(OUTBOUND) > 0, "never forgotten");
    if s.commands > 0 && parked {
        let c = s.command[0];
        let fin = c[0] == 3 && c[2] & 4 != 0;
        if c[0] < 3 || fin {
            assert!(woken(OUTBOUND) > 0, "a stream was closed: another one may be opened");
            kani::cover!(c[0] == 0, "dropped");
            kani::cover!(c[0] == 1, "closed");
            kani::cover!(fin, "closed before it was used");
        }
    }
    std::mem::forget((a, r));
}
/// A stream that is opened, be it the first one or not: the task that found no stream to serve is woken.
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
#[kani::stub(crate::connection::Active::ack_backlog, some_backlog)]
fn c15_open() {
    let mut a = any_active(NoIo);
    a.next_id = kani::any();
    kani::assume(a.next_id != 0 && (a.next_id % 2 == 0) == matches!(a.mode, Mode::Server));
    let n = a.streams.len();
    let parked = a.no_streams_waker.is_some();
    let w = waker(TASK);
    let mut cx = Context::from_waker(&w);
    let r = std::mem::ManuallyDrop::new(a.poll_new_outbound(&mut cx));
    assert!(!parked || a.no_streams_waker.is_some() || woken(NO_STREAMS) > 0, "never forgotten");
    match &*r {
        Poll::Ready(Ok(_)) => {
            assert!(!parked || woken(NO_STREAMS) > 0, "the connection is told that there is a stream");
            kani::cover!(parked && n == 0, "the first one");
        }
        Poll::Pending => assert!(is_waker(&a.new_outbound_stream_waker, TASK), "woken when there is room"),
        _ => {}
    }
    std::mem::forget(a);
}
fn some_backlog<T: AsyncRead + AsyncWrite + Unpin>(_: &mut Active<T>) -> usize {
    kani::any()
}
