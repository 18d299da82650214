//@include prelude.rs
verus! {
pub struct Id { pub x: u8 }
pub const MIB: usize = 1024 * 1024;

/// The socket. sent: all bytes it took; got: all bytes it gave; eof: it said that there is no more;
/// waited: the last call was answered Pending (the socket then has the waker).
pub trait AsyncWrite {
    spec fn sent(&self) -> Seq<u8>;
    spec fn wwaited(&self) -> bool;
    fn poll_write(&mut self, cx: &mut Context, buf: &[u8]) -> (r: Poll<io::Result<usize>>)
        ensures r is Pending ==> final(self).wwaited(), match r {
            // A count beyond the buffer is an error of the socket, which the crate detects (as long as the count is at most isize::MAX).
            Poll::Ready(Ok(n)) => n <= isize::MAX && final(self).sent() == old(self).sent() + if n <= buf@.len() { buf@.take(n as int) } else { buf@ },
            Poll::Ready(Err(e)) => final(self).sent() == old(self).sent() && e.socket,
            Poll::Pending => final(self).sent() == old(self).sent(),
        };
    fn poll_flush(&mut self, cx: &mut Context) -> (r: Poll<io::Result<()>>)
        ensures final(self).sent() == old(self).sent(), r is Pending ==> final(self).wwaited(), r matches Poll::Ready(Err(e)) ==> e.socket;
    fn poll_close(&mut self, cx: &mut Context) -> (r: Poll<io::Result<()>>)
        ensures final(self).sent() == old(self).sent(), r is Pending ==> final(self).wwaited(), r matches Poll::Ready(Err(e)) ==> e.socket;
}
pub trait AsyncRead {
    spec fn got(&self) -> Seq<u8>;
    spec fn eof(&self) -> bool;
    spec fn rwaited(&self) -> bool;
    fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<io::Result<usize>>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Pending ==> final(self).rwaited(),
            match r {
                Poll::Ready(Ok(n)) => n <= old(buf)@.len() && final(self).got() == old(self).got() + final(buf)@.take(n as int)
                    && final(buf)@.skip(n as int) == old(buf)@.skip(n as int) && (n == 0 && old(buf)@.len() > 0 ==> final(self).eof()),
                Poll::Ready(Err(e)) => final(self).got() == old(self).got() && final(buf)@ == old(buf)@ && e.socket,
                Poll::Pending => final(self).got() == old(self).got() && final(buf)@ == old(buf)@,
            };
}

/// The codec, by its contract (decided bit by bit under C01).
pub struct HeaderDecodeError { pub x: u8 }
pub mod header {
    use super::*;
    pub const HEADER_SIZE: usize = 12;
    #[derive(PartialEq, Eq, Clone, Copy)]
    pub enum Tag { Data, WindowUpdate, Ping, GoAway }
    pub assume_specification[<Tag as PartialEq>::eq](a: &Tag, b: &Tag) -> (r: bool) ensures r == (*a == *b);
    pub struct Header { pub tag: Tag, pub len: u32, pub x: u64 }
    pub struct Len(pub u32);
    impl Len { pub fn val(&self) -> (r: u32) ensures r == self.0 { self.0 } }
    impl Header {
        pub fn tag(&self) -> (r: Tag) ensures r == self.tag { self.tag }
        pub fn len(&self) -> (r: Len) ensures r.0 == self.len { Len(self.len) }
    }
    impl Clone for Header { fn clone(&self) -> (r: Header) ensures r == *self { Header { tag: self.tag, len: self.len, x: self.x } } }
    pub uninterp spec fn decoded(b: Seq<u8>) -> Result<Header, HeaderDecodeError>;
    pub uninterp spec fn coded(h: Header) -> Seq<u8>;
    #[verifier::external_body]
    pub fn decode(b: &[u8; HEADER_SIZE]) -> (r: Result<Header, HeaderDecodeError>) ensures r == decoded(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn encode(h: &Header) -> (r: [u8; HEADER_SIZE]) ensures r@ == coded(*h) { unimplemented!() }
}
pub struct Frame { pub header: header::Header, pub body: Vec<u8> }
impl Frame {
    pub fn new(header: header::Header) -> (r: Frame) ensures r.header == header, r.body@ == Seq::<u8>::empty() { Frame { header, body: Vec::new() } }
}
pub enum FrameDecodeError { Io(io::Error), Header(HeaderDecodeError), FrameTooLarge(usize) }
impl From<io::Error> for FrameDecodeError { fn from(k: io::Error) -> FrameDecodeError { FrameDecodeError::Io(k) } }
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for FrameDecodeError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(k: io::Error) -> FrameDecodeError { FrameDecodeError::Io(k) }
}
impl From<HeaderDecodeError> for FrameDecodeError { fn from(k: HeaderDecodeError) -> FrameDecodeError { FrameDecodeError::Header(k) } }
impl vstd::std_specs::convert::FromSpecImpl<HeaderDecodeError> for FrameDecodeError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(k: HeaderDecodeError) -> FrameDecodeError { FrameDecodeError::Header(k) }
}

// ---- the crate's text ----
//@item frame/io.rs const MAX_FRAME_BODY_LEN
//@item frame/io.rs struct Io
//@item frame/io.rs enum WriteState
#[allow(inconsistent_fields)]
//@item frame/io.rs enum ReadState

/// The header that the 12 bytes at p code, or why they code none.
spec fn head_at(s: Seq<u8>, p: int) -> Result<header::Header, HeaderDecodeError> { header::decoded(s.subrange(p, p + 12)) }
broadcast proof fn head_at_stays(a: Seq<u8>, b: Seq<u8>, p: int)
    requires 0 <= p, p + 12 <= a.len()
    ensures #[trigger] head_at(a + b, p) == head_at(a, p)
{ assert((a + b).subrange(p, p + 12) =~= a.subrange(p, p + 12)); }

impl WriteState {
    /// What is still to be written.
    spec fn todo(self) -> Seq<u8> {
        match self {
            WriteState::Init => Seq::empty(),
            WriteState::Header { header, buffer, offset } => header@.skip(offset as int) + buffer@,
            WriteState::Body { buffer, offset } => buffer@.skip(offset as int),
            WriteState::Poisoned => Seq::empty(),
        }
    }
    spec fn wf(self) -> bool {
        match self {
            WriteState::Header { header, buffer, offset } => offset < 12 && buffer@.len() <= isize::MAX,
            WriteState::Body { buffer, offset } => offset < buffer@.len() && buffer@.len() <= isize::MAX,
            _ => true,
        }
    }
}
impl ReadState {
    /// How many bytes of the frame in progress were read.
    spec fn partial(self) -> int {
        match self {
            ReadState::Init => 0,
            ReadState::Header { offset, .. } => offset as int,
            ReadState::Body { offset, .. } => 12 + offset,
        }
    }
    spec fn rank(self) -> int {
        match self {
            ReadState::Init => 2 * MAX_FRAME_BODY_LEN + 100,
            ReadState::Header { offset, .. } => MAX_FRAME_BODY_LEN + 50 - offset,
            ReadState::Body { header, offset, .. } => header.len - offset,
        }
    }
}
impl<T: AsyncRead> Io<T> {
    /// Where the frame in progress begins in the bytes read so far.
    spec fn start(self) -> int { self.io.got().len() - self.read_state.partial() }
    spec fn rwf(self) -> bool {
        &&& 0 <= self.start()
        &&& match self.read_state {
            ReadState::Init => true,
            ReadState::Header { offset, buffer } => offset <= 12 && self.io.got().skip(self.start()) =~= buffer@.take(offset as int)
                && (offset == 12 ==> self.io.got().subrange(self.start(), self.start() + 12) =~= buffer@),
            ReadState::Body { header, offset, buffer } => {
                &&& offset <= buffer@.len() && buffer@.len() == header.len && header.len <= 1024 * 1024 && header.tag == header::Tag::Data
                &&& head_at(self.io.got(), self.start()) == Ok::<_, HeaderDecodeError>(header)
                &&& self.io.got().skip(self.start() + 12) =~= buffer@.take(offset as int)
            },
        }
    }
}

impl<T: AsyncWrite> Io<T> {
//@fn frame/io.rs "Sink<Frame<()>> for Io<T>" poll_ready
//@sig: fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>>
//@as: fn poll_ready(&mut self, cx: &mut Context) -> (r: Poll<Result<(), io::Error>>)
//@spec:
    requires old(self).write_state.wf(),
    ensures
        final(self).write_state.wf(),
        // Exactly the frame goes out, in order: nothing is lost, repeated or invented.
        !(final(self).write_state is Poisoned) ==> final(self).io.sent() + final(self).write_state.todo() == old(self).io.sent() + old(self).write_state.todo(),
        // Only a count that the socket cannot have written poisons the sink.
        final(self).write_state is Poisoned ==> r matches Poll::Ready(Err(_)),
        // Ready means that all of it is out, Pending that the socket makes the writer wait.
        r matches Poll::Ready(Ok(_)) ==> final(self).write_state is Init,
        r is Pending ==> final(self).io.wwaited(),
        // An error is the socket's, or the socket's count was none (WriteZero) or too much (poisoned).
        r matches Poll::Ready(Err(e)) ==> e.socket || final(self).write_state is Poisoned || e.kind == io::ErrorKind::WriteZero,
//@loop:
    invariant
        this.write_state.wf(),
        this.write_state is Poisoned ==> old(self).write_state is Poisoned,
        !(this.write_state is Poisoned) ==> this.io.sent() + this.write_state.todo() == old(self).io.sent() + old(self).write_state.todo(),
    decreases this.write_state.todo().len(),
//@end
//@fn frame/io.rs "Sink<Frame<()>> for Io<T>" start_send
//@sig: fn start_send(self: Pin<&mut Self>, f: Frame<()>) -> Result<(), Self::Error>
//@as: fn start_send(&mut self, f: Frame) -> (r: Result<(), io::Error>)
//@spec:
    requires f.body@.len() <= isize::MAX, // of every Vec
    ensures
        r is Ok,
        final(self).write_state.wf(),
        final(self).write_state.todo() == header::coded(f.header) + f.body@,
        final(self).io == old(self).io,
//@end
//@fn frame/io.rs "Sink<Frame<()>> for Io<T>" poll_flush
//@sig: fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>>
//@as: fn poll_flush(&mut self, cx: &mut Context) -> (r: Poll<Result<(), io::Error>>)
//@spec:
    requires old(self).write_state.wf(),
    ensures
        final(self).write_state.wf(),
        !(final(self).write_state is Poisoned) ==> final(self).io.sent() + final(self).write_state.todo() == old(self).io.sent() + old(self).write_state.todo(),
        r matches Poll::Ready(Ok(_)) ==> final(self).write_state is Init,
        r is Pending ==> final(self).io.wwaited(),
        r matches Poll::Ready(Err(e)) ==> e.socket || final(self).write_state is Poisoned || e.kind == io::ErrorKind::WriteZero,
//@end
//@fn frame/io.rs "Sink<Frame<()>> for Io<T>" poll_close
//@sig: fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>>
//@as: fn poll_close(&mut self, cx: &mut Context) -> (r: Poll<Result<(), io::Error>>)
//@spec:
    requires old(self).write_state.wf(),
    ensures
        final(self).write_state.wf(),
        !(final(self).write_state is Poisoned) ==> final(self).io.sent() + final(self).write_state.todo() == old(self).io.sent() + old(self).write_state.todo(),
        r matches Poll::Ready(Ok(_)) ==> final(self).write_state is Init,
        r is Pending ==> final(self).io.wwaited(),
        r matches Poll::Ready(Err(e)) ==> e.socket || final(self).write_state is Poisoned || e.kind == io::ErrorKind::WriteZero,
//@end
}
impl<T: AsyncRead> Io<T> {
//@fn frame/io.rs "Stream for Io<T>" poll_next item
//@sig: fn poll_next(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>>
//@as: fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<Result<Frame, FrameDecodeError>>>)
//@spec:
    requires old(self).rwf(),
    ensures
        final(self).io.got().len() >= old(self).io.got().len(),
        final(self).io.got().take(old(self).io.got().len() as int) =~= old(self).io.got(),
        match r {
            // Only the socket makes the reader wait.
            Poll::Pending => final(self).rwf() && final(self).start() == old(self).start() && final(self).io.rwaited(),
            // The end of the stream between two frames.
            Poll::Ready(None) => final(self).rwf() && final(self).io.got().len() == old(self).start() && final(self).io.eof(),
            // Exactly the bytes of the frame, and nothing beyond it, were consumed.
            Poll::Ready(Some(Ok(f))) => {
                let got = final(self).io.got();
                let p = old(self).start();
                &&& final(self).rwf() && final(self).start() == got.len()
                &&& got.len() == p + 12 + f.body@.len()
                &&& head_at(got, p) == Ok::<_, HeaderDecodeError>(f.header)
                &&& f.body@ =~= got.skip(p + 12)
                &&& f.body@.len() == if f.header.tag == header::Tag::Data { f.header.len as int } else { 0 }
            },
            Poll::Ready(Some(Err(FrameDecodeError::Io(e)))) => e.socket && final(self).rwf() && final(self).start() == old(self).start()
                || !e.socket && e.kind == io::ErrorKind::UnexpectedEof && final(self).io.eof() && final(self).io.got().len() > old(self).start(),
            Poll::Ready(Some(Err(FrameDecodeError::Header(e)))) => final(self).io.got().len() == old(self).start() + 12
                && head_at(final(self).io.got(), old(self).start()) == Err::<header::Header, _>(e),
            Poll::Ready(Some(Err(FrameDecodeError::FrameTooLarge(n)))) => final(self).io.got().len() == old(self).start() + 12 && n > 1024 * 1024
                && (head_at(final(self).io.got(), old(self).start()) matches Ok(h) && h.tag == header::Tag::Data && h.len == n),
        },
//@start: broadcast use head_at_stays;
//@loop:
    invariant
        this.rwf(), this.start() == old(self).start(),
        this.io.got().len() >= old(self).io.got().len(),
        this.io.got().take(old(self).io.got().len() as int) =~= old(self).io.got(),
    decreases this.read_state.rank(),
//@end
}
}
fn main() {}
