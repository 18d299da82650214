//@include prelude.rs
use std::collections::VecDeque;
verus! {
//@include base_frames.rs
//@include base_errors.rs
//@include base_recv.rs
//@include base_due.rs
pub assume_specification<T, A: std::alloc::Allocator>[VecDeque::<T, A>::is_empty](v: &VecDeque<T, A>) -> (r: bool) ensures r == (v@.len() == 0);
pub mod mpsc { use super::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { x: T }
}
// ---- the crate's text: connection/closing.rs ----
//@item connection/closing.rs enum State
//@item connection/closing.rs struct Closing
impl Closing {
    /// All that was handed to the socket and all that waits to be.
    spec fn queue(self) -> Seq<Frame> { self.socket.sent() + self.pending_frames@ }
    spec fn early(self) -> bool { self.state is ClosingStreamReceiver || self.state is DrainingStreamReceiver }
    spec fn wf(self) -> bool {
        &&& !(self.state is ClosingStreamReceiver) ==> self.stream_receivers.all_closed()
        &&& self.state is ClosingSocket ==> self.pending_frames@.len() == 0
    }
//@fn connection/closing.rs "Closing<T> where T: AsyncRead + AsyncWrite + Unpin," new
//@sig: fn new(stream_receivers: SelectAll<TaggedStream<StreamId, mpsc::Receiver<StreamCommand>>>, pending_frames: VecDeque<Frame<()>>, socket: Fuse<frame::Io<T>>) -> Self
//@as: fn new(stream_receivers: Receivers, pending_frames: VecDeque<Frame>, socket: Socket) -> (r: Closing)
//@spec: ensures r.wf(), r.early(), r.stream_receivers == stream_receivers, r.socket == socket, r.pending_frames == pending_frames
//@end
//@fn connection/closing.rs "Future for Closing<T> where T: AsyncRead + AsyncWrite + Unpin," poll conn poll
//@sig: fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output>
//@as: #[verifier::exec_allows_no_decreases_clause] fn poll(&mut self, cx: &mut Context) -> (r: Poll<Result<(), ConnectionError>>)
//@spec:
    requires old(self).wf(), !old(self).socket.wwaited(), !old(self).socket.closed(), old(self).socket.error() is None,
    ensures
        final(self).wf(),
        // Every frame that waited, then every frame that a stream still asked for, then the goodbye, once; in that order.
        (r is Pending || r->Ready_0 is Ok) ==> !final(self).early() && if old(self).early() {
            &&& final(self).queue().len() > 0
            &&& final(self).queue().last().header == Header::new(Tag::GoAway, StreamId(0), 0)
            &&& asked(final(self).queue().drop_last(), old(self).queue(), final(self).stream_receivers.taken(), old(self).stream_receivers.taken().len() as int)
        } else {
            final(self).queue() =~= old(self).queue() && final(self).stream_receivers == old(self).stream_receivers
        },
        // Nothing that was sent is taken back, whatever happens.
        old(self).socket.sent().is_prefix_of(final(self).socket.sent()),
        // An error of the socket is reported.
        !(r matches Poll::Ready(Err(_))) ==> final(self).socket.error() is None,
        match r {
            // It ends when everything was handed over and the socket was closed.
            Poll::Ready(Ok(())) => final(self).pending_frames@.len() == 0 && final(self).socket.closed(),
            Poll::Ready(Err(e)) => final(self).socket.error() == Some(e),
            // It waits for the socket only.
            Poll::Pending => final(self).socket.wwaited() && !final(self).early(),
        },
//@start: broadcast use asked_more; broadcast use sent_one; broadcast use moved_one;
//@loop:
    invariant
        this.wf(), !this.socket.closed(), this.socket.error() is None,
        old(self).socket.sent().is_prefix_of(this.socket.sent()),
        old(self).early() ==> (if this.early() { asked(this.queue(), old(self).queue(), this.stream_receivers.taken(), old(self).stream_receivers.taken().len() as int) }
            else { this.queue().len() > 0 && this.queue().last().header == Header::new(Tag::GoAway, StreamId(0), 0)
                && asked(this.queue().drop_last(), old(self).queue(), this.stream_receivers.taken(), old(self).stream_receivers.taken().len() as int) }),
        old(self).stream_receivers.taken().len() <= this.stream_receivers.taken().len(),
        !old(self).early() ==> !this.early() && this.queue() =~= old(self).queue() && this.stream_receivers == old(self).stream_receivers,
//@end
}
/// A frame goes from the waiting ones to the socket; a frame is added to those that wait.
broadcast proof fn sent_one(s: Seq<Frame>, p: Seq<Frame>, f: Frame)
    ensures
        #![trigger s + p.push(f)]
        s + p.push(f) =~= (s + p).push(f),
        (s + p.push(f)).drop_last() =~= s + p,
        (s + p.push(f)).last() == f,
{
}
broadcast proof fn moved_one(s: Seq<Frame>, p: Seq<Frame>)
    requires p.len() > 0
    ensures
        #![trigger s.push(p[0])]
        s.push(p[0]) + p.drop_first() =~= s + p,
        s.push(p[0]) + p.subrange(1, p.len() as int) =~= s + p,
{
}
}
fn main() {}
