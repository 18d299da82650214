// Appended to connection/closing.rs.
use super::*;
pub(crate) fn pending<T>(c: &Closing<T>) -> &VecDeque<Frame<()>> { &c.pending_frames }
pub(crate) fn receivers<T>(c: &Closing<T>) -> &SelectAll<TaggedStream<StreamId, mpsc::Receiver<StreamCommand>>> { &c.stream_receivers }
/// Any of the states between two calls of `poll`.
pub(crate) fn set_any_state<T>(c: &mut Closing<T>) {
    c.state = match kani::any::<u8>() {
        0 => State::ClosingStreamReceiver,
        1 => State::DrainingStreamReceiver,
        2 => State::FlushingPendingFrames,
        _ => State::ClosingSocket,
    };
}
