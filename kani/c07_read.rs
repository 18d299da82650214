// C07 (attached to connection/stream.rs): reading sends the credit that was accounted for.
use super::verif_acc::*;
use super::*;

fn check(c: &Call) {
    // The invariant of the window.
    assert!(c.post.buffered == c.pre.buffered);
    assert!(c.post.max >= DEFAULT_CREDIT && c.post.buffered + c.post.recv as usize <= c.post.max as usize);
    let budget = c.limit.unwrap_or(usize::MAX) - c.streams * DEFAULT_CREDIT as usize;
    assert!(c.post_acc <= budget && c.post_acc - c.acc == (c.post.max - c.pre.max) as usize);
    match c.sent {
        Some(s) => {
            assert!(c.count == 1 && s.kind == Kind::WindowUpdate && s.id == c.id && s.body == 0);
            assert!(s.len > 0 && c.post.recv == c.pre.recv + s.len, "the peer is told exactly what it may send");
            assert!(c.pre.state.can_read() && !c.closed && !c.full);
            kani::cover!(true, "update");
            kani::cover!(c.post.max > c.pre.max, "growth");
        }
        None => {
            assert!(c.count == 0 && c.post.recv == c.pre.recv && c.post.max == c.pre.max, "no credit is granted silently");
            let due = c.pre.max as usize - c.pre.recv as usize - c.pre.buffered >= c.pre.max as usize / 2;
            if due && !c.closed && !c.full {
                assert!(!c.pre.state.can_read(), "an update that is due is sent");
            }
        }
    }
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c07_poll_read() {
    check(&call(Op::Read, 4, true));
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c07_poll_next() {
    check(&call(Op::Next, 0, true));
}
/// Writing, flushing and closing do not touch the receive window.
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c07_other_calls() {
    let k: u8 = kani::any();
    let c = match k {
        0 => call(Op::Write, 4, true),
        1 => call(Op::Flush, 0, true),
        _ => call(Op::Close, 0, true),
    };
    assert!(c.post.recv == c.pre.recv && c.post.max == c.pre.max && c.post.buffered == c.pre.buffered && c.post_acc == c.acc);
    if let Some(s) = c.sent {
        assert!(s.kind != Kind::WindowUpdate);
    }
}
