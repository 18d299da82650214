// C03 (attached to frame/io.rs): the frame writer, from every intermediate state.
use super::*;
use super::verif_acc::*;
use vsupport::*;
use crate::frame::verif_acc as fra;

/// Accepts an arbitrary number of bytes per call - also 0, and also more than it was given - or is
/// pending, or fails. `due` is what remains to be written; every accepted byte is compared with it.
struct Sock {
    due: [u8; 16],
    n: usize,
    pos: usize,
    writes: u32,
    failed: bool,
    interrupted: bool,
    zero: bool,
    over: bool,
    flushed: bool,
    closed: bool,
}
const WRITES: u32 = 2;
fn any_kind() -> io::ErrorKind {
    match kani::any::<u8>() {
        0 => io::ErrorKind::Interrupted,
        1 => io::ErrorKind::WouldBlock,
        2 => io::ErrorKind::BrokenPipe,
        3 => io::ErrorKind::WriteZero,
        4 => io::ErrorKind::UnexpectedEof,
        5 => io::ErrorKind::TimedOut,
        _ => io::ErrorKind::ConnectionReset,
    }
}
impl AsyncRead for Sock {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut [u8]) -> Poll<io::Result<usize>> { panic!("the writer does not read") }
}
impl AsyncWrite for Sock {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        // An interrupted write may be tried again.
        assert!(!self.failed || self.interrupted, "nothing is written after a failure");
        assert!(!self.zero && !self.over, "nothing is written after a failure");
        self.failed = false;
        assert!(!buf.is_empty());
        if self.writes == WRITES || kani::any() {
            return Poll::Pending;
        }
        self.writes += 1;
        if kani::any() {
            let kind = any_kind();
            self.failed = true;
            self.interrupted = kind == io::ErrorKind::Interrupted;
            return Poll::Ready(Err(kind.into()));
        }
        let n: usize = kani::any();
        kani::assume(n <= usize::MAX / 2);
        if n == 0 {
            self.zero = true;
            return Poll::Ready(Ok(0));
        }
        let i: usize = kani::any();
        if n <= buf.len() {
            assert!(self.pos + buf.len() <= self.n, "no more than what is due is offered");
            if i < n {
                assert!(buf[i] == self.due[self.pos + i], "the bytes due, in order");
            }
            self.pos += n;
        } else {
            self.over = true;
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        assert!(self.pos == self.n, "flushed only when everything was handed over");
        self.flushed = true;
        if kani::any() { Poll::Pending } else { Poll::Ready(Ok(())) }
    }
    fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        assert!(self.pos == self.n, "closed only when everything was handed over");
        self.closed = true;
        if kani::any() { Poll::Pending } else { Poll::Ready(Ok(())) }
    }
}
fn any_io() -> Io<Sock> {
    let mut io = Io::new(
        crate::connection::Id::next(),
        Sock { due: [0; 16], n: 0, pos: 0, writes: 0, failed: false, interrupted: false, zero: false, over: false, flushed: false, closed: false },
    );
    // The body is absent or has three bytes.
    let with_body: bool = kani::any();
    let s: u8 = kani::any();
    match s {
        0 => {}
        1 => {
            let h: [u8; 12] = kani::any();
            let o: usize = kani::any();
            kani::assume(o < 12);
            set_write_header(&mut io, o, h, if with_body { any_vec(3) } else { Vec::new() });
        }
        2 => {
            let o: usize = kani::any();
            kani::assume(o < 3);
            set_write_body(&mut io, o, any_vec(3));
        }
        _ => set_write_poisoned(&mut io),
    }
    let n = unsent(&io);
    let mut due = [0u8; 16];
    macro_rules! cp { ($($i:expr),*) => { $( if $i < n { due[$i] = unsent_at(&io, $i); } )* } }
    cp!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14);
    let s = sock_of(&mut io);
    s.due = due;
    s.n = n;
    io
}
/// What is still unsent is exactly the rest of what was due.
fn rest_ok(io: &Io<Sock>) -> bool {
    let s = sock_ref(io);
    let i: usize = kani::any();
    unsent(io) == s.n - s.pos && (i >= unsent(io) || unsent_at(io, i) == s.due[s.pos + i])
}
fn check(io: &Io<Sock>, poisoned: bool, r: &Poll<Result<(), io::Error>>, last: bool) {
    let s = sock_ref(io);
    match r {
        Poll::Pending => {
            assert!(!poisoned && !s.failed && !s.zero && !s.over && rest_ok(io));
        }
        Poll::Ready(Ok(())) => {
            assert!(!poisoned && !s.failed && !s.zero && !s.over);
            assert!(s.pos == s.n && write_state(io) == W::Init);
            kani::cover!(s.n == 15, "opt: header and body");
        }
        Poll::Ready(Err(e)) => {
            if s.over || poisoned {
                assert!(write_state(io) == W::Poisoned);
                kani::cover!(s.over, "opt: lying writer");
            } else {
                assert!(s.failed || s.zero);
                assert!(!s.zero || e.kind() == io::ErrorKind::WriteZero);
                assert!(rest_ok(io));
            }
        }
    }
    let _ = last;
}

#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c03_poll_ready() {
    let mut io = any_io();
    let poisoned = write_state(&io) == W::Poisoned;
    let w = waker(0);
    let mut cx = Context::from_waker(&w);
    let r = Pin::new(&mut io).poll_ready(&mut cx);
    check(&io, poisoned, &r, false);
    assert!(!sock_ref(&io).flushed && !sock_ref(&io).closed);
    std::mem::forget((io, r));
}
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c03_poll_flush() {
    let mut io = any_io();
    let poisoned = write_state(&io) == W::Poisoned;
    let w = waker(0);
    let mut cx = Context::from_waker(&w);
    let r = Pin::new(&mut io).poll_flush(&mut cx);
    if let Poll::Ready(Ok(())) = &r {
        assert!(sock_ref(&io).flushed);
    }
    check(&io, poisoned, &r, true);
    assert!(!sock_ref(&io).closed);
    std::mem::forget((io, r));
}
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c03_poll_close() {
    let mut io = any_io();
    let poisoned = write_state(&io) == W::Poisoned;
    let w = waker(0);
    let mut cx = Context::from_waker(&w);
    let r = Pin::new(&mut io).poll_close(&mut cx);
    if let Poll::Ready(Ok(())) = &r {
        assert!(sock_ref(&io).closed);
    }
    check(&io, poisoned, &r, true);
    std::mem::forget((io, r));
}
/// Queueing a frame makes exactly its encoding due.
#[kani::proof]
#[kani::unwind(2)]
fn c03_start_send() {
    let mut io = Io::new(
        crate::connection::Id::next(),
        Sock { due: [0; 16], n: 0, pos: 0, writes: 0, failed: false, interrupted: false, zero: false, over: false, flushed: false, closed: false },
    );
    let h = fra::any_header();
    let want = header::encode(&h);
    let n: usize = kani::any();
    kani::assume(n <= u32::MAX as usize);
    let body = any_vec(n);
    let i: usize = kani::any();
    let b = if i < n { body[i] } else { 0 };
    let f = fra::mk(h, body);
    assert!(Pin::new(&mut io).start_send(f).is_ok());
    assert!(unsent(&io) == 12 + n);
    let j: usize = kani::any();
    if j < 12 {
        assert!(unsent_at(&io, j) == want[j]);
    }
    if i < n {
        assert!(unsent_at(&io, 12 + i) == b);
    }
    std::mem::forget(io);
}
