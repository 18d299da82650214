// Stand-ins for what the extracted text refers to. Every external_body and uninterp item is an
// assumption; the evidence lists them.
#![feature(allocator_api)]
#![allow(unused, private_interfaces)]
use vstd::prelude::*;

macro_rules! format_ { ($($t:tt)*) => { crate::no_text() } }
macro_rules! ready { ($e:expr) => { match $e { Poll::Ready(t) => t, Poll::Pending => return Poll::Pending } } }
macro_rules! ready_try { ($e:expr) => { match $e { Poll::Ready(Ok(t)) => t, Poll::Ready(Err(e)) => return Poll::Ready(Err(e)), Poll::Pending => return Poll::Pending } } }
macro_rules! ready_item { ($e:expr) => { match $e { Poll::Ready(Ok(t)) => t, Poll::Ready(Err(e)) => return Poll::Ready(Some(Err(e.into()))), Poll::Pending => return Poll::Pending } } }
macro_rules! ready_or { ($e:expr, $f:expr) => { match $e { Poll::Ready(Ok(t)) => t, Poll::Ready(Err(_)) => return Poll::Ready(Err($f)), Poll::Pending => return Poll::Pending } } }
macro_rules! result_or { ($e:expr, $f:expr) => { match $e { Ok(t) => t, Err(_) => return Poll::Ready(Err($f)) } } }
macro_rules! poll_or { ($e:expr, $f:expr) => { match $e { Poll::Ready(Ok(t)) => Poll::Ready(Ok(t)), Poll::Ready(Err(_)) => Poll::Ready(Err($f)), Poll::Pending => Poll::Pending } } }
macro_rules! tri { ($e:expr) => { match Branch::branch($e) { Ok(t) => t, Err(e) => return Err(Erring::error(e)) } } }
macro_rules! tri_poll { ($e:expr) => { match Branch::branch($e) { Ok(t) => t, Err(e) => return Poll::Ready(Err(Erring::error(e))) } } }
macro_rules! ready_conv { ($e:expr) => { match $e { Poll::Ready(Ok(t)) => t, Poll::Ready(Err(e)) => return Poll::Ready(Err(Erring::error(e))), Poll::Pending => return Poll::Pending } } }
macro_rules! must { ($($t:tt)*) => { holds($($t)*) } }

verus! {
global size_of usize == 8;
proof fn prelude() {
    // VACUITY prelude
}

pub enum Poll<T> { Ready(T), Pending }

pub struct Waker { pub x: u64 }
impl Clone for Waker { fn clone(&self) -> (r: Waker) ensures r == *self { Waker { x: self.x } } }
pub struct Context { pub waker: Waker }
impl Context {
    #[verifier::external_body]
    pub fn waker(&self) -> (r: &Waker) ensures *r == self.waker { unimplemented!() }
}

#[verifier::external_body]
pub struct Text { x: u8 }
#[verifier::external_body]
pub fn no_text() -> Text { unimplemented!() }

// std::mem::take for Vec<u8>
#[verifier::external_body]
pub fn mem_take(v: &mut Vec<u8>) -> (r: Vec<u8>)
    ensures r@ == old(v)@, final(v)@ == Seq::<u8>::empty()
{ unimplemented!() }

// Vec::from(&[u8])
#[verifier::external_body]
pub fn vec_from(v: &[u8]) -> (r: Vec<u8>)
    ensures r@ == v@
{ unimplemented!() }

pub fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn max_usize(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { b } else { a } { if a <= b { b } else { a } }

// x.range_mut(a, b) is &mut x[a..b]
pub trait RangeMut {
  spec fn seq(&self) -> Seq<u8>;
  fn range_mut(&mut self, a: usize, b: usize) -> (r: &mut [u8])
    requires a <= b <= old(self).seq().len(),
    ensures r@ == old(self).seq().subrange(a as int, b as int),
       final(r)@.len() == r@.len() ==> final(self).seq() =~= old(self).seq().take(a as int) + final(r)@ + old(self).seq().skip(b as int);
}
impl RangeMut for Vec<u8> {
  open spec fn seq(&self) -> Seq<u8> { self@ }
  fn range_mut(&mut self, a: usize, b: usize) -> (r: &mut [u8]) { &mut self.as_mut_slice()[a..b] }
}
impl RangeMut for [u8; 12] {
  open spec fn seq(&self) -> Seq<u8> { self@ }
  fn range_mut(&mut self, a: usize, b: usize) -> (r: &mut [u8]) { &mut self[a..b] }
}
impl RangeMut for [u8] {
  open spec fn seq(&self) -> Seq<u8> { self@ }
  fn range_mut(&mut self, a: usize, b: usize) -> (r: &mut [u8]) { &mut self[a..b] }
}

pub mod io {
    pub use std::io::Cursor;
    use super::*;
    #[derive(PartialEq, Eq, Clone, Copy, Debug)]
    pub enum ErrorKind {
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe,
        AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other,
    }
    pub assume_specification[<ErrorKind as PartialEq>::eq](a: &ErrorKind, b: &ErrorKind) -> (r: bool) ensures r == (*a == *b);
    #[derive(Debug)]
    /// socket: the socket made it (of any kind), not the crate.
    pub struct Error { pub kind: ErrorKind, pub socket: bool }
    pub type Result<T> = core::result::Result<T, Error>;
    impl Error {
        #[verifier::external_body]
        pub fn other<E>(e: E) -> (r: Error) ensures r.kind == ErrorKind::Other, !r.socket { unimplemented!() }
        #[verifier::external_body]
        pub fn new<E>(k: ErrorKind, e: E) -> (r: Error) ensures r.kind == k, !r.socket { unimplemented!() }
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.kind { self.kind }
    }
    impl From<ErrorKind> for Error { fn from(k: ErrorKind) -> Error { Error { kind: k, socket: false } } }
    impl vstd::std_specs::convert::FromSpecImpl<ErrorKind> for Error {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(k: ErrorKind) -> Error { Error { kind: k, socket: false } }
    }
}
}
