// C19 (attached to connection.rs): a frame for one stream leaves every other stream alone.
use super::verif_acc::*;
use super::*;
use stream::State;

fn check(s: &Scene) {
    assert!(s.still_there, "no inbound frame removes a stream");
    assert!(s.post_n == s.n + (s.out == Out::New) as usize);
    if !s.known {
        assert!(s.unchanged(), "a stream changed because of a frame for another one");
        kani::cover!(true, "other stream");
    }
}
on_data!(c19_data_in, c19_data_in_syn, c19_data_in_rest, true, |s: Scene| {
    check(&s);
    if !s.known && !s.has(fra::SYN) {
        assert!(s.out == Out::Nothing, "data for an unknown stream is ignored");
    }
});
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c19_window_update_in() {
    let s = scene(1, true);
    check(&s);
    if !s.known && !s.has(fra::SYN) {
        assert!(s.out == Out::Nothing, "a window update for an unknown stream is ignored");
    }
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c19_others_in() {
    let s = if kani::any() { scene(2, true) } else { scene(3, true) };
    check(&s);
}
