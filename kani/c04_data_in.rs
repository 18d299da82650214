// C04 (attached to connection.rs): an inbound body is appended to the buffer of its stream, as it is.
use super::verif_acc::*;
use super::*;
use vsupport::*;
use crate::chunks::verif_acc as ca;

#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c04_data_appended() {
    let mut a = any_active(NoIo);
    let key: u32 = kani::any();
    let arc = add_stream(&mut a, StreamId::new(key));
    let had: bool = kani::any();
    if had {
        arc.lock().buffer.push(any_vec(2));
    }
    let before = arc.lock().buffer.len();
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let mut h = Header::data(StreamId::new(if kani::any() { key } else { kani::any() }), n as u32);
    if kani::any() { h.syn() }
    if kani::any() { h.ack() }
    if kani::any() { h.fin() }
    let (id, syn) = (h.stream_id().val(), h.flags().contains(header::SYN));
    let mut body = any_vec(3);
    body.truncate(n);
    let data = [body.get(0).copied(), body.get(1).copied(), body.get(2).copied()];
    let r = a.on_frame(fra::mk(h, body).into());
    let i: usize = kani::any();
    let same = |c: &crate::chunks::Chunks, k: usize| {
        if n > 0 {
            let u = ca::unread(c, k);
            assert!(u.len() == n && (i >= n || Some(u[i]) == data[i]), "the bytes of the frame");
        }
        assert!(ca::count(c) == k + (n > 0) as usize);
    };
    match &r {
        Ok(Action::None) if id == key => {
            let s = arc.lock();
            assert!(s.buffer.len() == before + n);
            same(&s.buffer, had as usize);
            kani::cover!(had && n == 3, "appended");
        }
        Ok(Action::New(s)) => {
            assert!(syn && arc.lock().buffer.len() == before);
            let s = s.shared();
            assert!(s.buffer.len() == n);
            same(&s.buffer, 0);
            kani::cover!(n == 3, "first data of a new stream");
        }
        _ => assert!(arc.lock().buffer.len() == before),
    }
    std::mem::forget((a, arc, r));
}
