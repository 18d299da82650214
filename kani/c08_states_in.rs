// C08 (attached to connection.rs): the state of a stream after an inbound frame.
use super::verif_acc::*;
use super::*;
use stream::State;

/// The state after a frame that was not refused.
fn next(pre: State, s: &Scene) -> State {
    let acked = |st| match st {
        State::Open { .. } => State::Open { acknowledged: true },
        st => st,
    };
    let mut st = pre;
    if s.has(fra::ACK) {
        st = acked(st)
    }
    if s.has(fra::RST) {
        return State::Closed;
    }
    if s.has(fra::FIN) {
        st = match st {
            State::Open { .. } | State::RecvClosed => State::RecvClosed,
            State::SendClosed | State::Closed => State::Closed,
        }
    }
    st
}
fn check(s: &Scene) {
    if !s.known {
        assert!(s.post.state == s.pre.state, "other streams keep their state");
        return;
    }
    if s.out == Out::Bye {
        // The connection ends. The stream may have been acknowledged, no more.
        assert!(s.post.state == s.pre.state || s.has(fra::ACK));
        return;
    }
    assert!(s.post.state == next(s.pre.state, s));
    kani::cover!(s.pre.state == State::SendClosed && s.post.state == State::Closed && s.has(fra::FIN), "fin after fin");
    kani::cover!(s.has(fra::RST) && s.has(fra::ACK), "reset");
    kani::cover!(s.pre.state == State::Open { acknowledged: false } && s.post.state == State::Open { acknowledged: true }, "acknowledged");
}
on_data!(c08_data_in, c08_data_in_syn, c08_data_in_rest, false, |s: Scene| {
    check(&s);
});
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c08_window_update_in() {
    check(&scene(1, false));
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c08_others_in() {
    let s = if kani::any() { scene(2, false) } else { scene(3, false) };
    assert!(s.post.state == s.pre.state);
}
