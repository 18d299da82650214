// C15 (attached to connection.rs): an inbound frame wakes whoever waits for what it brings.
use super::verif_acc::*;
use super::*;
use stream::State;

fn check(s: &Scene) {
    // A parked task is either still parked or was woken.
    assert!(!s.pre.reader || s.post.reader || s.woken_reader > 0);
    assert!(!s.pre.writer || s.post.writer || s.woken_writer > 0);
    assert!(!s.outbound_parked || s.outbound_left || s.woken_outbound > 0);
    assert!(!s.no_streams_parked || s.no_streams_left || s.woken_no_streams > 0);
    // It is not left parked when there is something for it.
    if s.pre.reader && s.woken_reader == 0 {
        assert!(s.post.buffered == s.pre.buffered, "a reader waits although data arrived");
        assert!(s.post.state.can_read() == s.pre.state.can_read(), "a reader waits although the stream ended");
    }
    if s.pre.writer && s.woken_writer == 0 {
        assert!(s.post.send == s.pre.send, "a writer waits although credit arrived");
        assert!(s.post.state.can_write() == s.pre.state.can_write(), "a writer waits although the stream was closed");
    }
    if s.outbound_parked && s.woken_outbound == 0 {
        let pending = |st| st == State::Open { acknowledged: false };
        // Only streams that we opened count.
        let ours = s.key != 0 && (s.key % 2 == 0) == s.server;
        assert!(!(ours && pending(s.pre.state) && !pending(s.post.state)), "a task waits to open a stream although one was acknowledged or ended");
    }
    if s.no_streams_parked && s.woken_no_streams == 0 {
        assert!(s.receivers == 0, "the connection waits for streams although there is one");
    }
}
on_data!(c15_data_in, c15_data_in_syn, c15_data_in_rest, false, |s: Scene| {
    check(&s);
    kani::cover!(s.woken_reader > 0 && s.body > 0, "reader woken");
    kani::cover!(s.woken_writer > 0 && s.woken_reader > 0 && s.has(fra::RST), "both woken by a reset");
});
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c15_window_update_in() {
    let s = scene(1, false);
    check(&s);
    kani::cover!(s.woken_writer > 0 && s.post.send > s.pre.send, "writer woken");
    kani::cover!(s.woken_outbound > 0, "opener woken");
    kani::cover!(s.woken_no_streams > 0, "connection woken");
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c15_others_in() {
    let s = if kani::any() { scene(2, false) } else { scene(3, false) };
    check(&s);
}
