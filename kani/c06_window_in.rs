// C06 (attached to connection.rs): the receive window is enforced on every inbound data frame.
use super::verif_acc::*;
use super::*;
use stream::State;

on_data!(c06_data, c06_data_syn, c06_data_rest, true, |s: Scene| {
    if s.known && !s.has(fra::RST) && !s.has(fra::SYN) {
        if s.body > s.pre.recv as usize {
            assert!(s.out == Out::Bye && s.code == 1, "more than the window is a protocol error");
            assert!(s.post.recv == s.pre.recv && s.post.buffered == s.pre.buffered, "and nothing of it is buffered");
            kani::cover!(true, "overrun");
        } else {
            assert!(s.out == Out::Nothing);
            assert!(s.post.recv as usize == s.pre.recv as usize - s.body, "every byte is charged");
            assert!(s.post.buffered == s.pre.buffered + s.body, "and buffered");
            kani::cover!(s.body > 0 && s.body == s.pre.recv as usize, "to the last byte");
        }
    } else {
        assert!(s.post.recv == s.pre.recv && s.post.buffered == s.pre.buffered);
        kani::cover!(s.known && s.has(fra::RST), "reset");
    }
    assert!(s.post.max == s.pre.max);
    // What the peer can make us hold for a stream never exceeds its maximum window.
    assert!(s.post.buffered + s.post.recv as usize <= s.post.max as usize);
    if let Some(f) = &s.fresh {
        assert!(f.s.buffered + f.s.recv as usize <= f.s.max as usize && f.s.buffered == s.body);
        kani::cover!(s.body > 0, "data on a new stream");
    }
});
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c06_others() {
    let t: u8 = kani::any();
    let s = match t {
        1 => scene(1, true),
        2 => scene(2, true),
        _ => scene(3, true),
    };
    assert!(s.post.recv == s.pre.recv && s.post.max == s.pre.max && s.post.buffered == s.pre.buffered);
    if let Some(f) = &s.fresh {
        assert!(f.s.buffered == 0 && f.s.recv == 256 * 1024 && f.s.max == 256 * 1024);
    }
}
