// C13 (attached to connection.rs): pings are answered and pongs are checked.
use super::verif_acc::*;
use super::*;
use stream::State;

#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c13_ping_in() {
    let s = scene(2, false);
    assert!(s.unchanged() && s.fresh.is_none() && s.post_n == s.n);
    if s.has(fra::ACK) {
        if s.awaiting == Some(s.len) {
            assert!(s.out == Out::Nothing && s.still_awaiting.is_none());
            kani::cover!(true, "the pong we wait for");
        } else {
            assert!(s.out == Out::Bye && s.code == 1, "any other pong is a protocol error");
            assert!(s.still_awaiting == s.awaiting);
            kani::cover!(s.awaiting.is_none(), "unsolicited");
            kani::cover!(s.awaiting.is_some(), "wrong value");
        }
    } else {
        assert!(s.still_awaiting == s.awaiting);
        if s.id == 0 || s.known {
            assert!(s.out == Out::Pong && s.pong == s.len, "answered with the same value");
            kani::cover!(true, "answered");
        } else {
            assert!(s.out == Out::Nothing, "a ping for a stream that does not exist is not answered");
        }
    }
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c13_others_in() {
    let s = if kani::any() { scene(1, false) } else { scene(3, false) };
    assert!(s.out != Out::Pong && s.still_awaiting == s.awaiting);
}
on_data!(c13_data_in, c13_data_in_syn, c13_data_in_rest, false, |s: Scene| {
    assert!(s.out != Out::Pong && s.still_awaiting == s.awaiting);
});
