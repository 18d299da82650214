// C02 (attached to frame/io.rs): the frame reader, from every intermediate state.
use super::*;
use super::verif_acc::*;
use vsupport::*;
use crate::frame::verif_acc as fra;

/// The bytes on the wire are `data[..end]`; each read delivers an arbitrary non-empty part of what
/// is asked for, or is pending, or fails; after `end` bytes the socket reports end-of-file (or is
/// pending).
struct Sock {
    data: [u8; 16],
    end: usize,
    pos: usize,
    reads: u32,
    failed: bool,
    kind: io::ErrorKind,
    eof: bool,
}
impl AsyncRead for Sock {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        assert!(!buf.is_empty(), "the reader never asks for zero bytes");
        if self.reads == 0 || kani::any() {
            return Poll::Pending;
        }
        self.reads -= 1;
        if kani::any() {
            self.failed = true;
            self.kind = match kani::any::<u8>() {
                0 => io::ErrorKind::Interrupted,
                1 => io::ErrorKind::WouldBlock,
                2 => io::ErrorKind::BrokenPipe,
                3 => io::ErrorKind::UnexpectedEof,
                4 => io::ErrorKind::TimedOut,
                _ => io::ErrorKind::ConnectionReset,
            };
            return Poll::Ready(Err(self.kind.into()));
        }
        let left = self.end - self.pos;
        if left == 0 {
            self.eof = true;
            return Poll::Ready(Ok(0));
        }
        let n: usize = kani::any();
        kani::assume(n >= 1 && n <= left && n <= buf.len() && n <= 16);
        let p = self.pos;
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n;
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Sock {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, _: &[u8]) -> Poll<io::Result<usize>> { panic!("the reader does not write") }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { panic!("the reader does not write") }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { panic!("the reader does not write") }
}
fn sock(data: [u8; 16], end: usize, pos: usize, reads: u32) -> Sock {
    Sock { data, end, pos, reads, failed: false, kind: io::ErrorKind::Other, eof: false }
}
fn hdr(d: &[u8; 16]) -> [u8; 12] {
    [d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9], d[10], d[11]]
}
fn eq12(a: &[u8; 12], d: &[u8; 16]) -> bool {
    a[0] == d[0] && a[1] == d[1] && a[2] == d[2] && a[3] == d[3] && a[4] == d[4] && a[5] == d[5]
        && a[6] == d[6] && a[7] == d[7] && a[8] == d[8] && a[9] == d[9] && a[10] == d[10] && a[11] == d[11]
}
fn len(d: &[u8; 16]) -> usize {
    u32::from_be_bytes([d[8], d[9], d[10], d[11]]) as usize
}
fn ask<T: AsyncRead + AsyncWrite + Unpin>(io: &mut Io<T>) -> Poll<Option<Result<Frame<()>, FrameDecodeError>>> {
    let w = waker(0);
    let mut cx = Context::from_waker(&w);
    Pin::new(io).poll_next(&mut cx)
}
/// Where the reader stands after a call, in terms of the bytes it took off the wire.
fn consistent(io: &Io<Sock>) -> bool {
    let s = sock_ref(io);
    let i: usize = kani::any();
    match read_state(io) {
        R::Init => s.pos == 0,
        R::Header(o) => s.pos == o && o <= 12 && (i >= o || read_buf(io)[i] == s.data[i]),
        R::Body(o) => s.pos == 12 + o && s.data[1] == 0 && read_buf(io).len() == len(&s.data) && o <= read_buf(io).len()
            && (i >= o || i >= 4 || read_buf(io)[i] == s.data[12 + i]),
    }
}
fn check(io: &Io<Sock>, r: &Poll<Option<Result<Frame<()>, FrameDecodeError>>>) {
    let s = sock_ref(io);
    match r {
        Poll::Pending => {
            assert!(consistent(io));
            assert!((!s.failed || s.kind == io::ErrorKind::Interrupted) && !s.eof);
        }
        Poll::Ready(None) => {
            // A clean end: only between frames.
            assert!(s.pos == 0 && s.eof);
            kani::cover!(true, "opt: clean end");
        }
        Poll::Ready(Some(Ok(f))) => {
            assert!(matches!(read_state(io), R::Init));
            assert!(!s.failed);
            assert!(eq12(&header::encode(f.header()), &s.data));
            let n = if s.data[1] == 0 { len(&s.data) } else { 0 };
            assert!(n <= MAX_FRAME_BODY_LEN && MAX_FRAME_BODY_LEN == 1024 * 1024);
            assert!(s.pos == 12 + n);
            assert!(fra::body(f).len() == n);
            let i: usize = kani::any();
            if i < n && i < 4 {
                assert!(fra::body(f)[i] == s.data[12 + i]);
            }
            
        }
        Poll::Ready(Some(Err(FrameDecodeError::Header(_)))) => {
            assert!(s.pos == 12 && (s.data[0] != 0 || s.data[1] > 3));
            assert!(!s.failed);
        }
        Poll::Ready(Some(Err(FrameDecodeError::FrameTooLarge(n)))) => {
            assert!(s.pos == 12 && s.data[0] == 0 && s.data[1] == 0 && len(&s.data) == *n && *n > 1024 * 1024);
            assert!(!s.failed);
        }
        Poll::Ready(Some(Err(FrameDecodeError::Io(e)))) => {
            // Either the socket failed, or it ended in the middle of a frame.
            if s.failed {
                assert!(e.kind() == s.kind);
            } else {
                assert!(s.eof && s.pos > 0 && e.kind() == io::ErrorKind::UnexpectedEof);
                kani::cover!(true, "opt: end in the middle of a frame");
            }
        }
    }
}

/// A complete header: whether, and how large, a body buffer is allocated.
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c02_reader_alloc() {
    let data: [u8; 16] = kani::any();
    let mut io = Io::new(crate::connection::Id::next(), sock(data, 12, 12, 0));
    set_read_header(&mut io, 12, hdr(&data));
    let r = ask(&mut io);
    match &r {
        Poll::Pending => {
            assert!(data[0] == 0 && data[1] == 0 && len(&data) > 0 && len(&data) <= 1024 * 1024);
            assert!(read_buf(&io).len() == len(&data));
            assert!(matches!(read_state(&io), R::Body(0)));
            kani::cover!(len(&data) == 1024 * 1024, "largest body");
        }
        _ => {
            assert!(!(data[0] == 0 && data[1] == 0 && len(&data) > 0 && len(&data) <= 1024 * 1024));
            if data[0] == 0 && data[1] == 0 && len(&data) > 0 {
                assert!(matches!(&r, Poll::Ready(Some(Err(FrameDecodeError::FrameTooLarge(n)))) if *n == len(&data)));
                assert!(read_buf(&io).len() <= 12, "nothing is allocated for it");
                kani::cover!(true, "too large");
            }
            check(&io, &r);
        }
    }
    std::mem::forget((io, r));
}

/// From any point inside a header.
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c02_reader_header() {
    let data: [u8; 16] = kani::any();
    let end: usize = kani::any();
    let off: usize = kani::any();
    kani::assume(off <= 12 && off <= end && end <= 16);
    // The transition into a body is c02_reader_alloc.
    kani::assume(data[1] != 0 || len(&data) == 0 || len(&data) > 1024 * 1024);
    let mut buf: [u8; 12] = [0; 12];
    macro_rules! cp { ($($i:expr),*) => { $( if $i < off { buf[$i] = data[$i]; } )* } }
    cp!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11);
    let mut io = Io::new(crate::connection::Id::next(), sock(data, end, off, 1));
    if off > 0 || kani::any() {
        set_read_header(&mut io, off, buf);
    }
    let r = ask(&mut io);
    check(&io, &r);
    std::mem::forget((io, r));
}

/// From any point inside a body.
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c02_reader_body() {
    let mut data: [u8; 16] = kani::any();
    data[0] = 0;
    data[1] = 0;
    data[8] = 0;
    data[9] = 0;
    data[10] = 0;
    data[11] = 3;
    let n = 3;
    let end: usize = kani::any();
    let off: usize = kani::any();
    kani::assume(off <= n && 12 + off <= end && end <= 16);
    let mut body = vec![0u8; n];
    macro_rules! cp { ($($i:expr),*) => { $( if $i < off { body[$i] = data[12 + $i]; } )* } }
    cp!(0, 1, 2);
    let h = match header::decode(&hdr(&data)) {
        Ok(h) => h,
        Err(_) => panic!("a data header is accepted"),
    };
    let mut io = Io::new(crate::connection::Id::next(), sock(data, end, 12 + off, 1));
    set_read_body(&mut io, h, off, body);
    let r = ask(&mut io);
    check(&io, &r);
    kani::cover!(matches!(&r, Poll::Ready(Some(Ok(_)))));
    std::mem::forget((io, r));
}
