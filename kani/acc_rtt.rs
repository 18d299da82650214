// Appended to connection/rtt.rs: access to the private fields.
use super::*;
pub(crate) fn set_rtt(r: &Rtt, d: Option<Duration>) { r.inner.lock().rtt = d; }
pub(crate) fn set_waiting(r: &Rtt, next: Instant) { r.inner.lock().state = RttState::Waiting { next }; }
pub(crate) fn set_awaiting(r: &Rtt, sent_at: Instant, id: u32) { r.inner.lock().state = RttState::AwaitingPong { sent_at, id }; }
pub(crate) fn set_next_id(r: &Rtt, id: u32) { r.next_id.store(id, Ordering::Relaxed); }
pub(crate) fn next_id(r: &Rtt) -> u32 { r.next_id.load(Ordering::Relaxed) }
/// `Some((sent_at, id))` while a ping is outstanding.
pub(crate) fn awaiting(r: &Rtt) -> Option<(Instant, u32)> {
    match r.inner.lock().state {
        RttState::AwaitingPong { sent_at, id } => Some((sent_at, id)),
        RttState::Waiting { .. } => None,
    }
}
/// `Some(next)` while no ping is outstanding.
pub(crate) fn waiting(r: &Rtt) -> Option<Instant> {
    match r.inner.lock().state {
        RttState::Waiting { next } => Some(next),
        RttState::AwaitingPong { .. } => None,
    }
}
