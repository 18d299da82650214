// C07 (attached to connection/stream/flow_control.rs): how the receive window is refilled and grows.
use super::verif_acc::*;
use super::*;
use crate::connection::rtt::verif_acc as ra;
use web_time::{clock, set_clock, Duration};

fn any_duration() -> Duration {
    let s: u64 = kani::any();
    let n: u32 = kani::any();
    kani::assume(s < (1 << 33) && n < 1_000_000_000);
    Duration::new(s, n)
}
fn any_fc() -> (FlowController, usize, usize) {
    let mut c = Config::default();
    c.max_num_streams = kani::any();
    c.max_connection_receive_window = if kani::any() { Some(kani::any()) } else { None };
    kani::assume(c.max_num_streams > 0 && c.max_num_streams <= (usize::MAX >> 18));
    let limit = c.max_connection_receive_window.unwrap_or(usize::MAX);
    kani::assume(limit >= c.max_num_streams * DEFAULT_CREDIT as usize);
    let budget = limit - c.max_num_streams * DEFAULT_CREDIT as usize;
    let acc: usize = kani::any();
    let (recv, max, send): (u32, u32, u32) = (kani::any(), kani::any(), kani::any());
    let buffered: usize = kani::any();
    // The invariant.
    kani::assume(max >= DEFAULT_CREDIT);
    kani::assume(buffered <= max as usize && buffered + recv as usize <= max as usize);
    kani::assume(acc >= (max - DEFAULT_CREDIT) as usize && acc <= budget);
    let rtt = Rtt::new();
    if max > DEFAULT_CREDIT || kani::any() {
        ra::set_rtt(&rtt, Some(any_duration()));
    }
    let mut f = FlowController::new(0, 0, Arc::new(Mutex::new(acc)), rtt, Arc::new(c));
    set(&mut f, recv, max, send);
    Instant::now();
    (f, buffered, budget)
}
#[kani::proof]
#[kani::unwind(2)]
fn c07_next_window_update() {
    let (mut f, buffered, budget) = any_fc();
    let (recv0, max0, acc0, last0) = (recv(&f) as u64, max(&f) as u64, *acc(&f).lock(), last(&f));
    let t0 = clock();
    let r = f.next_window_update(buffered);
    let t1 = clock();
    let (recv1, max1, acc1) = (recv(&f) as u64, max(&f) as u64, *acc(&f).lock());
    assert!(send(&f) == send(&f));
    // The invariant holds again.
    assert!(max1 >= DEFAULT_CREDIT as u64 && recv1 + buffered as u64 <= max1);
    assert!(acc1 as u64 >= max1 - DEFAULT_CREDIT as u64 && acc1 <= budget, "the windows of all streams stay within the configured limit");
    // Growth is paid for, and bounded.
    assert!(max1 >= max0 && (acc1 - acc0) as u64 == max1 - max0);
    assert!(max1 <= 2 * max0);
    match r {
        None => {
            assert!(recv1 == recv0 && max1 == max0 && last(&f) == last0);
            assert!(max0 - recv0 - (buffered as u64) < max0 / 2, "an update is due once half of the window was read");
        }
        Some(c) => {
            assert!(max0 - recv0 - buffered as u64 >= max0 / 2, "no update before half of the window was read");
            assert!(c > 0 && recv1 == recv0 + c as u64, "the credit sent is the credit granted");
            assert!(recv1 + buffered as u64 == max1, "the window is refilled completely");
            assert!(last(&f).0 >= t0 && last(&f).0 <= t1);
            let quick = |now: Duration, rtt: Duration| now.checked_sub(last0.0).unwrap_or(Duration::ZERO) < rtt * 2;
            match rtt(&f).get() {
                None => assert!(max1 == max0, "no growth without a measured round-trip time"),
                Some(d) => {
                    if !quick(t0, d) {
                        assert!(max1 == max0, "no growth if the window lasted two round trips");
                        kani::cover!(true, "slow reader");
                    }
                    if quick(t1, d) {
                        let room = (budget - acc0) as u128;
                        let want = std::cmp::min(2 * max0 as u128, u32::MAX as u128);
                        let grown = std::cmp::min(want, max0 as u128 + room);
                        assert!(max1 as u128 == grown, "the window doubles as far as the budget allows");
                        kani::cover!(room == 0, "no budget");
                        kani::cover!(max1 > max0 && (max1 as u128) < want, "part of the budget");
                        kani::cover!(max1 == 2 * max0, "doubled");
                    }
                }
            }
        }
    }
    std::mem::forget(f);
}
/// A stream that goes away returns its share.
#[kani::proof]
#[kani::unwind(2)]
fn c07_drop() {
    let (f, _, _) = any_fc();
    let a = acc(&f).clone();
    let (acc0, max0) = (*a.lock(), max(&f));
    drop(f);
    assert!(*a.lock() == acc0 - (max0 - DEFAULT_CREDIT) as usize);
    kani::cover!(max0 > DEFAULT_CREDIT, "grown");
    std::mem::forget(a);
}
#[kani::proof]
#[kani::unwind(2)]
fn c07_new() {
    let a = Arc::new(Mutex::new(kani::any()));
    let acc0: usize = *a.lock();
    let f = FlowController::new(DEFAULT_CREDIT, kani::any(), a.clone(), Rtt::new(), Arc::new(Config::default()));
    assert!(max(&f) == 256 * 1024 && recv(&f) == 256 * 1024 && *a.lock() == acc0);
    std::mem::forget((f, a));
}
/// The three primitive operations, for all arguments.
#[kani::proof]
#[kani::unwind(2)]
fn c07_windows() {
    let (mut f, _, _) = any_fc();
    let (r0, m0, s0, i): (u32, u32, u32, u32) = (recv(&f), max(&f), send(&f), kani::any());
    let k: u8 = kani::any();
    let (ok, dr, ds) = match k {
        0 => (f.consume_send_window(i).is_ok(), 0i64, -(i as i64)),
        1 => (f.increase_send_window_by(i).is_ok(), 0, i as i64),
        _ => (f.consume_receive_window(i).is_ok(), -(i as i64), 0),
    };
    let (r, s) = (r0 as i64 + dr, s0 as i64 + ds);
    let fits = |x: i64| x >= 0 && x <= u32::MAX as i64;
    assert!(ok == (fits(r) && fits(s)));
    assert!(max(&f) == m0);
    if ok {
        assert!(recv(&f) as i64 == r && send(&f) as i64 == s);
    } else {
        assert!(recv(&f) == r0 && send(&f) == s0);
    }
    kani::cover!(ok, "within the window");
    kani::cover!(!ok, "out of the window");
    std::mem::forget(f);
}
