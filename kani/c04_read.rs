// C04 (attached to connection/stream.rs): reading returns the buffered bytes, in order, each once.
use super::verif_acc::*;
use super::*;
use vsupport::*;
use crate::chunks::verif_acc as ca;

/// An arbitrary stream that has up to two chunks of up to three bytes, the first partly read.
/// `due[..n]` are the unread bytes.
fn filled() -> (Stream, mpsc::Receiver<StreamCommand>, [u8; 8], usize) {
    let (s, rx) = any_stream();
    kani::assume(s.config.max_num_streams > 0);
    let data: [u8; 6] = kani::any();
    let (a, b, o): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
    kani::assume(a <= 3 && b <= 3 && o <= a);
    let mut due = [0u8; 8];
    let mut n = 0;
    {
        let mut sh = s.shared.lock();
        let mut v = any_vec(3);
        v.copy_from_slice(&data[..3]);
        v.truncate(a);
        sh.buffer.push(v);
        let mut v = any_vec(3);
        v.copy_from_slice(&data[3..]);
        v.truncate(b);
        sh.buffer.push(v);
        if a > 0 {
            sh.buffer.front_mut().unwrap().advance(o);
        }
        let f = &sh.flow_controller;
        kani::assume(sh.buffer.len() + fa::recv(f) as usize <= fa::max(f) as usize);
    }
    let mut i = 0;
    while i < 6 {
        if (i < 3 && i >= o && i < a) || (i >= 3 && i - 3 < b) {
            due[n] = data[i];
            n += 1;
        }
        i += 1;
    }
    (s, rx, due, n)
}
fn rest(s: &Stream, i: usize) -> Option<u8> {
    let sh = s.shared();
    let c = &sh.buffer;
    let k = ca::count(c);
    let mut i = i;
    if k > 0 {
        let u = ca::unread(c, 0);
        if i < u.len() {
            return Some(u[i]);
        }
        i -= u.len();
    }
    if k > 1 {
        let u = ca::unread(c, 1);
        if i < u.len() {
            return Some(u[i]);
        }
    }
    None
}
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c04_poll_read() {
    let (mut s, rx, due, n) = filled();
    let (closed, rac, full, st) = (rx.chan().closed, s.config.read_after_close, rx.chan().parked, s.shared().state);
    let w = waker(TASK);
    let mut cx = Context::from_waker(&w);
    let mut buf = [0xEEu8; 4];
    let size: usize = kani::any();
    kani::assume(size <= 4);
    let r = std::mem::ManuallyDrop::new(Pin::new(&mut s).poll_read(&mut cx, &mut buf[..size]));
    let i: usize = kani::any();
    kani::assume(i < 8);
    let left = s.shared().buffer.len();
    match &*r {
        Poll::Ready(Ok(k)) => {
            let k = *k;
            if k > 0 {
                assert!(k == std::cmp::min(size, n), "as much as there is room for");
                if i < k {
                    assert!(buf[i] == due[i], "the next bytes, in order");
                }
                kani::cover!(k == 4 && n == 6, "from both chunks");
                kani::cover!(k < n && k == 2, "partial");
                kani::cover!(!st.can_read(), "after the peer's end of stream");
            } else {
                // End of stream (or no room).
                assert!(size == 0 || n == 0 || (closed && !rac), "no end of stream while there are bytes");
                kani::cover!(size > 0 && n == 0, "end of stream");
            }
            assert!(left == n - k);
            if k + i < n {
                assert!(rest(&s, i) == Some(due[k + i]), "what was not read stays");
            }
        }
        Poll::Pending => {
            assert!((n == 0 || size == 0) && left == n && st.can_read());
        }
        Poll::Ready(Err(_)) => {
            assert!(closed && st.can_read() && left == n);
        }
    }
    assert!(i < size || i >= 4 || buf[i] == 0xEE);
    std::mem::forget((s, rx));
}
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c04_poll_next() {
    let (mut s, rx, due, n) = filled();
    let (closed, rac, st) = (rx.chan().closed, s.config.read_after_close, s.shared().state);
    let w = waker(TASK);
    let mut cx = Context::from_waker(&w);
    let r = std::mem::ManuallyDrop::new(futures::stream::Stream::poll_next(Pin::new(&mut s), &mut cx));
    let i: usize = kani::any();
    kani::assume(i < 8);
    let left = s.shared().buffer.len();
    match &*r {
        Poll::Ready(Some(Ok(p))) => {
            let p: &[u8] = p.as_ref();
            let k = p.len();
            assert!(k <= n && left == n - k);
            if i < k {
                assert!(p[i] == due[i], "the next bytes, in order");
            }
            if k + i < n {
                assert!(rest(&s, i) == Some(due[k + i]), "what was not read stays");
            }
            kani::cover!(k == 2 && n == 5, "partly read chunk");
        }
        Poll::Ready(None) => {
            assert!(left == n && (n == 0 || (closed && !rac)), "no end of stream while there are bytes");
            assert!(!st.can_read() || closed);
        }
        Poll::Pending => assert!(n == 0 && left == n && st.can_read()),
        Poll::Ready(Some(Err(_))) => assert!(closed && st.can_read() && left == n),
    }
    std::mem::forget((s, rx));
}
/// No other call touches the buffer.
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c04_other_calls() {
    let (mut s, rx, due, n) = filled();
    let w = waker(TASK);
    let mut cx = Context::from_waker(&w);
    match kani::any::<u8>() {
        0 => std::mem::forget(Pin::new(&mut s).poll_write(&mut cx, b"abc")),
        1 => std::mem::forget(Pin::new(&mut s).poll_flush(&mut cx)),
        _ => std::mem::forget(Pin::new(&mut s).poll_close(&mut cx)),
    }
    let i: usize = kani::any();
    kani::assume(i < 8);
    assert!(s.shared().buffer.len() == n);
    if i < n {
        assert!(rest(&s, i) == Some(due[i]));
    }
    std::mem::forget((s, rx));
}
