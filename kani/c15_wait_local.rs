// C15 (attached to connection/stream.rs): a call that is pending has registered its task with
// whatever will make progress possible, and a command for the connection wakes the connection.
use super::verif_acc::*;
use super::*;

fn woken(c: &Call) {
    if c.count > 0 && c.conn_parked {
        assert!(c.conn_woken > 0, "the connection is told about the command");
        kani::cover!(true, "opt:connection woken");
    }
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c15_poll_write() {
    let c = call(Op::Write, 4, true);
    if c.res == Res::Pending {
        // Credit arrives, or the channel drains.
        assert!(if c.full { c.waits_chan } else { c.waits_write });
        kani::cover!(c.waits_write, "waits for credit");
        kani::cover!(c.waits_chan, "waits for the connection");
    }
    assert!(c.post.reader == c.pre.reader, "a parked reader stays parked");
    woken(&c);
}
fn read(c: &Call) {
    if c.res == Res::Pending {
        assert!(c.waits_read, "waits for data");
        // A window update that could not be sent yet is tried again when the channel drains.
        assert!(!c.full || c.waits_chan);
        kani::cover!(c.waits_chan, "waits for the connection");
        kani::cover!(!c.waits_chan, "waits for data only");
    }
    assert!(c.post.writer == c.pre.writer, "a parked writer stays parked");
    woken(c);
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c15_poll_read() {
    read(&call(Op::Read, 4, true));
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c15_poll_next() {
    read(&call(Op::Next, 0, true));
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c15_poll_close_flush() {
    let c = if kani::any() { call(Op::Close, 0, true) } else { call(Op::Flush, 0, true) };
    if c.res == Res::Pending {
        assert!(c.waits_chan);
        kani::cover!(true, "pending");
    }
    assert!(c.post.reader == c.pre.reader);
    assert!(c.post.writer == c.pre.writer);
    woken(&c);
}
