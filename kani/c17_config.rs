// C17 (attached to lib.rs): no configuration is accepted that leaves a stream less than its default window.
use super::*;

fn sane(c: &Config) -> bool {
    c.max_num_streams <= (usize::MAX >> 18) && c.max_connection_receive_window.unwrap_or(usize::MAX) >= c.max_num_streams * 256 * 1024
}
/// Any configuration that the setters accept.
fn any_config() -> Config {
    let c = Config {
        max_connection_receive_window: if kani::any() { Some(kani::any()) } else { None },
        max_num_streams: kani::any(),
        read_after_close: kani::any(),
        split_send_size: kani::any(),
    };
    kani::assume(sane(&c));
    c
}
fn tuple(c: &Config) -> (Option<usize>, usize, bool, usize) {
    (c.max_connection_receive_window, c.max_num_streams, c.read_after_close, c.split_send_size)
}
/// What is acceptable is accepted, and sets what it says and nothing else.
#[kani::proof]
#[kani::unwind(2)]
fn c17_accepted() {
    assert!(DEFAULT_CREDIT == 256 * 1024);
    let mut c = any_config();
    let (w, n, r, s) = tuple(&c);
    let (x, b): (usize, bool) = (kani::any(), kani::any());
    match kani::any::<u8>() {
        0 => {
            let v = if b { Some(x) } else { None };
            kani::assume(v.unwrap_or(usize::MAX) >= n * 256 * 1024);
            c.set_max_connection_receive_window(v);
            assert!(tuple(&c) == (v, n, r, s));
            kani::cover!(v.is_some(), "limit");
        }
        1 => {
            kani::assume(x <= (usize::MAX >> 18) && w.unwrap_or(usize::MAX) >= x * 256 * 1024);
            c.set_max_num_streams(x);
            assert!(tuple(&c) == (w, x, r, s));
            kani::cover!(x > 512, "streams");
        }
        2 => {
            c.set_read_after_close(b);
            assert!(tuple(&c) == (w, n, b, s));
        }
        _ => {
            c.set_split_send_size(x);
            assert!(tuple(&c) == (w, n, r, x));
        }
    }
    assert!(sane(&c));
}
#[kani::proof]
fn c17_default() {
    let c = Config::default();
    assert!(sane(&c) && tuple(&c) == (Some(1 << 30), 512, true, 16 * 1024), "the documented values");
}
/// What is not acceptable is refused (the setter panics).
#[kani::proof]
#[kani::should_panic]
#[kani::unwind(2)]
#[kani::stub(vsupport::accepted, vsupport::nothing)]
fn c17_refused() {
    let mut c = any_config();
    let (w, n, _, _) = tuple(&c);
    let x: usize = kani::any();
    if kani::any() {
        kani::assume(x < n * 256 * 1024);
        c.set_max_connection_receive_window(Some(x));
    } else {
        kani::assume(x <= (usize::MAX >> 18) && w.unwrap_or(usize::MAX) < x * 256 * 1024);
        c.set_max_num_streams(x);
    }
    kani::cover!(true, "never: a configuration that leaves too little was accepted");
    vsupport::accepted();
}
