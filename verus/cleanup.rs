//@include prelude.rs
verus! {
//@include base_frames.rs
//@include base_errors.rs
//@include base_recv.rs
pub mod mpsc { use super::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { x: T }
}
// ---- the crate's text: connection/cleanup.rs ----
//@item connection/cleanup.rs enum State
//@item connection/cleanup.rs struct Cleanup
impl Cleanup {
    spec fn wf(self) -> bool { self.state is DrainingStreamReceiver ==> self.stream_receivers.all_closed() }
//@fn connection/cleanup.rs "Cleanup" new
//@sig: fn new(stream_receivers: SelectAll<TaggedStream<StreamId, mpsc::Receiver<StreamCommand>>>, error: ConnectionError) -> Self
//@as: fn new(stream_receivers: Receivers, error: ConnectionError) -> (r: Cleanup)
//@spec: ensures r.wf(), r.stream_receivers == stream_receivers, r.error == Some(error)
//@end
//@fn connection/cleanup.rs "Future for Cleanup" poll conn poll
//@sig: fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output>
//@as: #[verifier::exec_allows_no_decreases_clause] fn poll(&mut self, cx: &mut Context) -> (r: Poll<ConnectionError>)
//@spec:
    requires old(self).wf(), old(self).error is Some,
    ensures
        // It ends at once, with the error it was made with, and no queue accepts any more commands.
        final(self).wf(), final(self).stream_receivers.all_closed(),
        r is Ready && Some(r->Ready_0) == old(self).error && final(self).error is None,
//@loop:
    invariant this.wf(), this.error == old(self).error,
//@end
}
}
fn main() {}
