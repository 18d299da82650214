// C10 (attached to connection.rs): which identifiers outbound streams get, and when one may be opened.
use super::verif_acc::*;
use super::*;
use vsupport::*;

fn ours<T>(a: &Active<T>, id: u32) -> bool {
    id != 0 && (id % 2 == 0) == matches!(a.mode, Mode::Server)
}
/// The identifiers in use by us are those below the next one.
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c10_open() {
    let mut a = any_active(NoIo);
    // The invariant (established by `new`, kept below): the next identifier is one of ours, and no
    // stream of ours has that identifier or a higher one.
    a.next_id = kani::any();
    kani::assume(ours(&a, a.next_id));
    let (k1, k2): (u32, u32) = (kani::any(), kani::any());
    kani::assume(k1 != k2);
    let s1 = add_stream(&mut a, StreamId::new(k1));
    let s2 = add_stream(&mut a, StreamId::new(k2));
    kani::assume(!ours(&a, k1) || k1 < a.next_id);
    kani::assume(!ours(&a, k2) || k2 < a.next_id);
    let (n, limit, next) = (a.streams.len(), a.config.max_num_streams, a.next_id);
    let parked = a.no_streams_waker.is_some();
    let (p1, p2) = (sa::snap(&s1.lock()), sa::snap(&s2.lock()));
    let w = waker(TASK);
    let mut cx = Context::from_waker(&w);
    let r = std::mem::ManuallyDrop::new(a.poll_new_outbound(&mut cx));
    match &*r {
        Poll::Ready(Ok(s)) => {
            assert!(n < limit, "no more than the configured number of streams");
            assert!(s.id().val() == next && ours(&a, next), "the next identifier of our parity");
            assert!(a.next_id as u64 == next as u64 + 2 && ours(&a, a.next_id), "no identifier is used twice");
            assert!(next != k1 && next != k2 && a.streams.len() == n + 1);
            let linked = match a.streams.get(&s.id()) {
                Some(e) => Arc::ptr_eq(e, sa::arc(s)),
                None => false,
            };
            let wired = match &a.stream_receivers.s0 {
                Some(t) => ta::key(t) == s.id() && std::ptr::eq(ta::inner(t).chan(), sa::sender(s).chan()),
                None => false,
            };
            assert!(linked && wired && sa::flag(s) == stream::Flag::Syn);
            let sh = sa::snap(&s.shared());
            assert!(sh.send == 256 * 1024 && sh.recv == 256 * 1024 && sh.max == 256 * 1024 && sh.state == stream::State::Open { acknowledged: false });
            assert!(a.no_streams_waker.is_none() && woken(NO_STREAMS) == parked as u32, "the connection is told");
            kani::cover!(true, "opened");
        }
        Poll::Ready(Err(ConnectionError::TooManyStreams)) => {
            assert!(n >= limit);
            kani::cover!(true, "limit");
        }
        Poll::Ready(Err(ConnectionError::NoMoreStreamIds)) => {
            assert!(n < limit && next > u32::MAX - 2, "the identifiers are used up");
            kani::cover!(true, "no more");
        }
        _ => assert!(false, "no backlog here"),
    }
    if !matches!(&*r, Poll::Ready(Ok(_))) {
        assert!(a.streams.len() == n && a.next_id == next && a.stream_receivers.len() == 0);
    }
    assert!(sa::snap(&s1.lock()) == p1);
    assert!(sa::snap(&s2.lock()) == p2);
    std::mem::forget((a, s1, s2));
}
/// The backlog counts the streams that we opened and that are not acknowledged.
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c10_backlog() {
    let mut a = any_active(NoIo);
    let (k1, k2): (u32, u32) = (kani::any(), kani::any());
    kani::assume(k1 != k2 && k1 != 0 && k2 != 0);
    let s1 = add_stream(&mut a, StreamId::new(k1));
    let s2 = add_stream(&mut a, StreamId::new(k2));
    let pending = |st| st == stream::State::Open { acknowledged: false };
    let e1 = ours(&a, k1) && pending(s1.lock().state());
    let e2 = ours(&a, k2) && pending(s2.lock().state());
    assert!(a.ack_backlog() == e1 as usize + e2 as usize);
    kani::cover!(e1 && e2, "two");
    std::mem::forget((a, s1, s2));
}
fn any_backlog<T: AsyncRead + AsyncWrite + Unpin>(_: &mut Active<T>) -> usize {
    let n = kani::any::<usize>();
    set_reg(0, n as u64);
    n
}
/// With 256 streams that are not acknowledged the task waits.
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
#[kani::stub(crate::connection::Active::ack_backlog, any_backlog)]
fn c10_waits() {
    let mut a = any_active(NoIo);
    a.next_id = kani::any();
    kani::assume(ours(&a, a.next_id));
    let (n, limit, next) = (a.streams.len(), a.config.max_num_streams, a.next_id);
    let w = waker(TASK);
    let mut cx = Context::from_waker(&w);
    let r = std::mem::ManuallyDrop::new(a.poll_new_outbound(&mut cx));
    match &*r {
        Poll::Pending => {
            assert!(n < limit && reg(0) >= 256, "waits only for acknowledgements");
            assert!(is_waker(&a.new_outbound_stream_waker, TASK), "and is registered");
            assert!(a.streams.len() == n && a.next_id == next);
            kani::cover!(true, "backlog");
        }
        Poll::Ready(Ok(_)) => {
            assert!(reg(0) < 256, "at most 256 streams wait to be acknowledged");
            kani::cover!(reg(0) == 255, "the last one");
        }
        _ => {}
    }
    std::mem::forget(a);
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c10_new() {
    let a = Active::new(NoIo, sa::any_config(), any_mode());
    assert!(a.next_id == if matches!(a.mode, Mode::Client) { 1 } else { 2 });
    assert!(ours(&a, a.next_id) && a.streams.is_empty());
    std::mem::forget(a);
}
