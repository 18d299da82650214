// C13 (attached to connection/rtt.rs): pings that measure the round-trip time.
use super::verif_acc::*;
use super::*;
use web_time::clock;

fn any_duration() -> Duration {
    let s: u64 = kani::any();
    let n: u32 = kani::any();
    kani::assume(s < (1 << 33) && n < 1_000_000_000);
    Duration::new(s, n)
}
fn any_rtt() -> Rtt {
    let r = Rtt::new();
    let d = if kani::any() { Some(any_duration()) } else { None };
    set_rtt(&r, d);
    if kani::any() {
        set_waiting(&r, Instant(any_duration()));
    } else {
        set_awaiting(&r, Instant::now(), kani::any());
    }
    set_next_id(&r, kani::any());
    r
}
#[kani::proof]
#[kani::unwind(2)]
fn c13_next_ping() {
    let mut r = any_rtt();
    let (wait, await_, id, rtt) = (waiting(&r), awaiting(&r), next_id(&r), r.get());
    let t0 = clock();
    let p = r.next_ping();
    let t1 = clock();
    assert!(r.get() == rtt);
    match &p {
        Some(f) => {
            let h = f.header();
            assert!(h.len().val() == id && h.stream_id().val() == 0 && h.flags().val() == 1, "a ping of the session");
            assert!(wait.is_some(), "one at a time");
            assert!(wait.unwrap().0 <= t1, "not before the interval is over");
            match awaiting(&r) {
                Some((at, i)) => assert!(i == id && at.0 >= t0 && at.0 <= t1, "the pong is awaited"),
                None => assert!(false, "the pong is awaited"),
            }
            assert!(next_id(&r) == id.wrapping_add(1), "the next one has another value");
            kani::cover!(true, "ping");
        }
        None => {
            assert!(await_.is_some() || wait.unwrap().0 > t0, "due");
            assert!(waiting(&r) == wait && awaiting(&r) == await_);
            kani::cover!(wait.is_some(), "not yet");
        }
    }
    std::mem::forget((r, p));
}
#[kani::proof]
#[kani::unwind(2)]
fn c13_pong() {
    let mut r = any_rtt();
    let (wait, await_, id, rtt) = (waiting(&r), awaiting(&r), next_id(&r), r.get());
    let t0 = clock();
    let got: u32 = kani::any();
    let a = r.handle_pong(got);
    let t1 = clock();
    assert!(next_id(&r) == id);
    match await_ {
        Some((at, i)) if i == got => {
            assert!(matches!(a, Action::None));
            let d = r.get();
            assert!(d.is_some() && waiting(&r).is_some());
            let d = d.unwrap();
            let since = |t: Duration| t.checked_sub(at.0).unwrap_or(Duration::ZERO);
            assert!(d >= since(t0) && d <= since(t1), "the time since the ping");
            let n = waiting(&r).unwrap().0;
            assert!(n >= t0 + Duration::from_secs(10) && n <= t1 + Duration::from_secs(10), "the next ping in ten seconds");
            kani::cover!(true, "measured");
        }
        _ => {
            match &a {
                Action::Terminate(f) => assert!(f.header().len().val() == 1 && f.header().stream_id().val() == 0),
                _ => assert!(false, "an unexpected pong is a protocol error"),
            }
            assert!(r.get() == rtt && waiting(&r) == wait && awaiting(&r) == await_, "and changes nothing");
            kani::cover!(await_.is_none(), "unsolicited");
            kani::cover!(await_.is_some(), "another value");
        }
    }
    std::mem::forget((r, a));
}
