// C08 (attached to connection/stream.rs): the stream's state machine and what each state permits.
use super::verif_acc::*;
use super::*;

/// All 5 x 5 transitions.
#[kani::proof]
#[kani::unwind(2)]
fn c08_update_state() {
    use State::*;
    let (s, rx) = any_stream();
    let (pre, arg) = (s.shared().state, any_state());
    let r = s.shared().update_state(s.conn, s.id, arg);
    let post = s.shared().state;
    assert!(r == pre, "the previous state is reported");
    // A state is the pair of directions that are still open.
    let open = |s: State| (s.can_write(), s.can_read());
    let (a, b) = (open(pre), open(arg));
    assert!(open(post) == (a.0 && b.0, a.1 && b.1), "a direction that is closed stays closed, no other one is closed");
    if let (Open { acknowledged }, Open { acknowledged: p }) = (pre, post) {
        assert!(arg == Open { acknowledged: p } && (p || !acknowledged || arg == Open { acknowledged: false }));
    }
    std::mem::forget((s, rx));
}
#[kani::proof]
fn c08_permissions() {
    use State::*;
    let s = any_state();
    assert!(s.can_read() == matches!(s, Open { .. } | SendClosed));
    assert!(s.can_write() == matches!(s, Open { .. } | RecvClosed));
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c08_queries() {
    let (s, rx) = any_stream();
    let st = s.shared().state;
    assert!(s.is_closed() == (st == State::Closed));
    assert!(s.is_write_closed() == (st == State::SendClosed));
    assert!(s.is_pending_ack() == (st == State::Open { acknowledged: false }));
    std::mem::forget((s, rx));
}
fn acked(c: &Call) -> State {
    // Sending the ACK is the only thing apart from closing that changes the state locally.
    match (c.pre.state, c.sent) {
        (State::Open { .. }, Some(s)) if s.has(2) => State::Open { acknowledged: true },
        (st, _) => st,
    }
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c08_poll_write() {
    let c = call(Op::Write, 4, false);
    if !c.pre.state.can_write() {
        assert!(!matches!(c.res, Res::Ok(_)) && c.count == 0, "nothing is sent after the write side was closed");
        if !c.full {
            assert!(c.res == Res::Err);
        }
        kani::cover!(c.res == Res::Err && !c.closed, "refused");
    }
    if c.closed {
        assert!(c.res == Res::Err, "a write on a closed connection fails");
    }
    if c.pre.state.can_write() && !c.closed {
        assert!(c.res != Res::Err, "a write is refused only after the write side or the connection was closed");
    }
    assert!(c.post.state == acked(&c));
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c08_poll_close() {
    let c = call(Op::Close, 0, false);
    let closed = match c.pre.state {
        State::Open { .. } | State::SendClosed => State::SendClosed,
        State::RecvClosed | State::Closed => State::Closed,
    };
    match c.res {
        Res::Ok(_) => {
            assert!(c.post.state == closed, "the write side is closed, the read side is not");
            kani::cover!(c.post.state == State::SendClosed, "half closed");
            kani::cover!(c.post.state == State::Closed && c.pre.state == State::RecvClosed, "closed");
        }
        Res::Err => assert!(c.closed && c.post.state == c.pre.state),
        Res::Pending => assert!(c.full && c.post.state == c.pre.state),
        Res::End => assert!(false),
    }
}
/// An empty buffer: end of stream is reported exactly when nothing more can come.
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c08_poll_read() {
    let c = call(Op::Read, 4, false);
    check_read(&c, Res::Ok(0));
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c08_poll_next() {
    let c = call(Op::Next, 0, false);
    check_read(&c, Res::End);
}
fn check_read(c: &Call, end: Res) {
    assert!(c.post.state == acked(c), "reading does not close anything");
    if c.closed && !c.rac {
        assert!(c.res == end);
    } else if !c.pre.state.can_read() {
        assert!(c.res == end, "the peer's end of stream is reported");
        kani::cover!(true, "end");
    } else if c.closed {
        assert!(c.res == Res::Err || c.res == end);
    } else {
        assert!(c.res == Res::Pending, "end of stream is not reported while the peer can still send");
        kani::cover!(true, "waiting");
    }
}
