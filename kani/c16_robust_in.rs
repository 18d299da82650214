// C16 (attached to connection.rs): no input from the peer makes the connection panic.
//
// The checks that count are those that Kani adds (panics, arithmetic overflow, failed assertions of
// the crate itself); the assertions below are the invariants that the next frame relies on.
use super::verif_acc::*;
use super::*;

fn check(s: &Scene) {
    assert!(s.post.recv <= s.post.max && s.post.max == s.pre.max);
    assert!(s.post.buffered as u64 + s.post.recv as u64 <= s.post.max as u64, "the receive buffer stays within its window");
    // Streams that are looked after and streams that are known are the same ones.
    assert!(s.still_there && s.receivers == s.post_n - s.n, "a stream is registered with its commands");
    assert!(s.post_n <= s.limit);
    if let Some(f) = s.fresh {
        assert!(f.linked && f.wired);
        assert!(f.s.buffered as u64 + f.s.recv as u64 <= f.s.max as u64);
    }
}
on_data!(c16_data_in, c16_data_in_syn, c16_data_in_rest, true, |s: Scene| {
    check(&s);
    kani::cover!(s.out == Out::New, "new");
    kani::cover!(s.known && s.body > 0 && s.out == Out::Nothing, "data");
});
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c16_window_update_in() {
    let s = scene(1, true);
    check(&s);
    kani::cover!(s.out == Out::New, "new");
    kani::cover!(s.known && s.out == Out::Bye, "overflow");
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c16_others_in() {
    let s = if kani::any() { scene(2, true) } else { scene(3, true) };
    check(&s);
    kani::cover!(s.out == Out::Pong, "ping");
    kani::cover!(s.out == Out::Err, "go away");
}
