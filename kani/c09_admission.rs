// C09 (attached to connection.rs): which inbound streams are admitted, and how.
use super::verif_acc::*;
use super::*;

fn admitted(s: &Scene, window: u64) {
    let f = s.fresh.unwrap();
    assert!(f.id == s.id && f.linked && f.wired && f.ack_due);
    assert!(s.receivers == 1 && s.post_n == s.n + 1);
    assert!(f.s.send as u64 == window, "the send window granted by the opening frame");
    assert!(f.s.max == 256 * 1024 && f.s.recv as usize == 256 * 1024 - s.body);
    assert!(f.s.buffered == s.body);
    if s.has(fra::FIN) {
        assert!(f.s.state == stream::State::RecvClosed);
    } else {
        assert!(f.s.state == stream::State::Open { acknowledged: false });
    }
    assert!(!s.no_streams_left && s.woken_no_streams == s.no_streams_parked as u32);
}
fn not_admitted(s: &Scene) {
    assert!(s.fresh.is_none() && s.receivers == 0 && s.post_n == s.n);
}
on_data!(c09_data, c09_data_syn, c09_data_rest, false, |s: Scene| {
    assert!(s.still_there);
    if s.has(fra::SYN) && !s.has(fra::RST) {
        if !s.valid_remote() || s.known {
            assert!(s.out == Out::Bye && s.code == 1, "a stream may not be opened with this identifier");
            kani::cover!(s.known, "duplicate");
            kani::cover!(s.id == 0, "session identifier");
        } else if s.n == s.limit {
            assert!(s.out == Out::Bye && s.code != 0, "no more than the configured number of streams");
            kani::cover!(true, "limit");
        } else if s.body > 256 * 1024 {
            assert!(s.out == Out::Bye && s.code == 1);
            kani::cover!(true, "too large");
        } else {
            assert!(s.out == Out::New);
            admitted(&s, 256 * 1024);
            kani::cover!(s.has(fra::FIN) && s.body > 0, "opened, with data, and half closed");
        }
    } else {
        assert!(s.out != Out::New, "only SYN opens a stream");
    }
    if s.out != Out::New {
        not_admitted(&s);
    }
});
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c09_window_update() {
    let s = scene(1, false);
    assert!(s.still_there);
    if s.has(fra::SYN) && !s.has(fra::RST) {
        if !s.valid_remote() || s.known {
            assert!(s.out == Out::Bye && s.code == 1, "a stream may not be opened with this identifier");
        } else if s.n == s.limit {
            assert!(s.out == Out::Bye && s.code != 0, "no more than the configured number of streams");
            kani::cover!(true, "limit");
        } else if s.len > u32::MAX - 256 * 1024 {
            assert!(s.out == Out::Bye && s.code == 1);
            kani::cover!(true, "window overflow");
        } else {
            assert!(s.out == Out::New);
            admitted(&s, 256 * 1024 + s.len as u64);
            kani::cover!(s.has(fra::FIN), "opened and half closed");
        }
    } else {
        assert!(s.out != Out::New, "only SYN opens a stream");
    }
    if s.out != Out::New {
        not_admitted(&s);
    }
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c09_other_frames() {
    let s = if kani::any() { scene(2, false) } else { scene(3, false) };
    assert!(s.out != Out::New);
    not_admitted(&s);
    assert!(s.unchanged());
}
