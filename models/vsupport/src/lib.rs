//! Support for the proof harnesses: wakers that count, and short forms of `kani::any`.
use std::task::{RawWaker, RawWakerVTable, Waker};

pub const NWAKERS: usize = 8;
static mut WOKEN: [u32; NWAKERS] = [0; NWAKERS];

fn clone(p: *const ()) -> RawWaker {
    RawWaker::new(p, &VT)
}
fn wake(p: *const ()) {
    unsafe { WOKEN[p as usize - 1] += 1 }
}
fn drop_(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(clone, wake, wake, drop_);

/// The waker with number `i`.
pub fn waker(i: usize) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new((i + 1) as *const (), &VT)) }
}
/// How often waker `i` was woken.
pub fn woken(i: usize) -> u32 {
    unsafe { WOKEN[i] }
}
/// Is `w` the waker with number `i`?
pub fn is_waker(w: &Option<Waker>, i: usize) -> bool {
    match w {
        Some(w) => w.data() as usize == i + 1,
        None => false,
    }
}
/// A vector of `n` unconstrained bytes (proof harnesses only).
#[cfg(kani)]
pub fn any_vec(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    unsafe { v.set_len(n) };
    v
}
/// Replaces `alloc::fmt::format` in the proofs: log and error texts are not modelled.
pub fn no_fmt(_: std::fmt::Arguments<'_>) -> String {
    String::new()
}
/// As `any_vec`; allocated without a branch on `n` (cheaper where the contents do not matter).
#[cfg(kani)]
pub fn opaque_vec(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 1);
    unsafe { v.set_len(n) };
    v
}

/// The framed socket by its contract (see `futures::stream::Fuse` of the stand-ins): every answer
/// that the contract allows, within the given budgets.
pub struct Sock {
    pub on: bool,
    /// How many more times `poll_ready` may answer "ready" and `poll_next` may deliver something.
    pub ready_budget: u32,
    pub item_budget: u32,
    /// `poll_ready` answered "ready" and nothing was sent since.
    pub ready: bool,
    pub failed: bool,
    /// Sent since the last flush.
    pub dirty: bool,
    /// The polling task is registered for writability / for readability since the last attempt.
    pub write_pending: bool,
    pub flush_pending: bool,
    pub read_pending: bool,
    pub ended: bool,
    pub closed: bool,
    pub close_calls: u32,
    pub sent: u32,
    pub items: u32,
    pub log: [[u64; 5]; 8],
    pub item: [u64; 5],
    /// The receivers of all streams by their contract (see `SelectAll`): they deliver commands.
    pub streams_on: bool,
    pub command_budget: u32,
    pub no_streams: bool,
    pub commands: u32,
    pub commands_pending: bool,
    /// Kind (0 dropped, 1 close, 2 close with ACK, 3 frame) and the frame's five numbers.
    pub command: [[u64; 6]; 4],
}
static mut SOCK: Sock = Sock {
    on: false, ready_budget: 0, item_budget: 0, ready: false, failed: false, dirty: false, write_pending: false,
    flush_pending: false, read_pending: false, ended: false, closed: false, close_calls: 0, sent: 0, items: 0, log: [[0; 5]; 8], item: [0; 5], streams_on: false, command_budget: 0, no_streams: false, commands: 0, commands_pending: false, command: [[0; 6]; 4],
};
#[allow(static_mut_refs)]
pub fn sock() -> &'static mut Sock {
    unsafe { &mut SOCK }
}
/// What is remembered of a frame: type, flags, stream, length field, body length.
pub trait Recorded {
    fn record(&self) -> [u64; 5];
}
/// An arbitrary item of the framed socket.
pub trait Delivered {
    fn any() -> Option<Self>
    where
        Self: Sized;
    fn seen(&self) -> [u64; 5];
}

/// The two halves of such an item.
pub trait DeliveredFrame: Recorded {
    fn any() -> Self;
}
pub trait DeliveredError {
    fn any() -> Self;
}
impl<F: DeliveredFrame, E: DeliveredError> Delivered for Result<F, E> {
    fn any() -> Option<Self> {
        #[cfg(kani)]
        if kani::any() {
            return if kani::any() { None } else { Some(Err(E::any())) };
        }
        Some(Ok(F::any()))
    }
    fn seen(&self) -> [u64; 5] {
        match self {
            Ok(f) => f.record(),
            Err(_) => [99, 0, 0, 0, 0],
        }
    }
}
/// Registers for harnesses and stubs (the crate under proof forbids unsafe code).
static mut REG: [u64; 16] = [0; 16];
pub fn reg(i: usize) -> u64 {
    unsafe { REG[i] }
}
pub fn set_reg(i: usize, v: u64) {
    unsafe { REG[i] = v }
}

/// A command of some stream, as `SelectAll` delivers it.
pub trait Commanded {
    fn any() -> Self;
    fn record(&self) -> [u64; 6];
}
pub trait AnyKey: Copy {
    fn any() -> Self;
    fn num(&self) -> u64;
}
pub trait AnyCommand {
    /// An arbitrary command of the stream `key`.
    fn any(key: u64) -> Self;
    fn record(&self) -> [u64; 6];
}
impl<K: AnyKey, C: AnyCommand> Commanded for (K, Option<C>) {
    fn any() -> Self {
        let k = K::any();
        #[cfg(kani)]
        if kani::any() {
            return (k, None);
        }
        let c = C::any(k.num());
        (k, Some(c))
    }
    fn record(&self) -> [u64; 6] {
        let mut r = match &self.1 {
            None => [0; 6],
            Some(c) => c.record(),
        };
        r[3] = self.0.num();
        r
    }
}
/// Marks a place that must not be reached: replaced by `nothing` under proof (where a cover decides),
/// a panic when a counterexample is replayed.
pub fn accepted() {
    panic!("what had to be refused was accepted")
}
pub fn nothing() {}

static mut SPLIT: u8 = 0;
/// The case that a proof is about (see `on_data` of the connection harnesses).
pub fn split() -> u8 {
    unsafe { SPLIT }
}
pub fn set_split(n: u8) {
    unsafe { SPLIT = n }
}
