// C12 (attached to connection.rs): what the peer is told when a stream is dropped.
use super::verif_acc::*;
use super::*;
use stream::State;
use vsupport::*;

#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c12_on_drop_stream() {
    let mut a = any_active(NoIo);
    let (id, other): (u32, u32) = (kani::any(), kani::any());
    kani::assume(id != other);
    let s = add_stream(&mut a, StreamId::new(id));
    let o = add_stream(&mut a, StreamId::new(other));
    any_buffered(&s);
    any_buffered(&o);
    let n = a.streams.len();
    let (pre, op) = (sa::snap(&s.lock()), sa::snap(&o.lock()));
    let parked = a.new_outbound_stream_waker.is_some();
    std::mem::forget(s.lock().reader.take());
    std::mem::forget(s.lock().writer.take());
    if pre.reader {
        s.lock().reader = Some(waker(5));
    }
    if pre.writer {
        s.lock().writer = Some(waker(6));
    }
    let r = std::mem::ManuallyDrop::new(a.on_drop_stream(StreamId::new(id)));
    let f = num(&r);
    match pre.state {
        State::Open { .. } => {
            assert!(f == Some((0, 8, id as u64, 0, 0)), "an open stream is reset");
            kani::cover!(true, "reset");
        }
        State::RecvClosed => {
            assert!(f == Some((0, 4, id as u64, 0, 0)), "the peer has finished: so do we");
            kani::cover!(true, "fin");
        }
        State::SendClosed | State::Closed => {
            assert!(f.is_none(), "the FIN was sent already");
            kani::cover!(true, "nothing");
        }
    }
    assert!(!a.streams.contains_key(&StreamId::new(id)) && a.streams.len() == n - 1, "the stream is forgotten");
    assert!(s.lock().state() == State::Closed);
    assert!(woken(5) == pre.reader as u32 && woken(6) == pre.writer as u32);
    assert!(sa::snap(&o.lock()) == op, "other streams are left alone");
    assert!(!parked || woken(OUTBOUND) > 0, "a task that waits to open a stream is woken");
    std::mem::forget((a, s, o));
}
