// ---- the framed socket and the queues of the streams, as the connection sees them ----
pub trait Erring { spec fn as_error(self) -> ConnectionError; fn error(self) -> (r: ConnectionError) ensures r == self.as_error(); }
impl Erring for ConnectionError {
    open spec fn as_error(self) -> ConnectionError { self }
    fn error(self) -> (r: ConnectionError) { self }
}
// The From impls of error.rs.
impl Erring for io::Error {
    open spec fn as_error(self) -> ConnectionError { ConnectionError::Io(self) }
//@fn error.rs "From<std::io::Error> for ConnectionError" from
//@sig: fn from(e: std::io::Error) -> Self
//@as: fn error(self) -> (r: ConnectionError)
//@start_exec: let e = self;
//@end
}
impl Erring for FrameDecodeError {
    open spec fn as_error(self) -> ConnectionError { ConnectionError::Decode(self) }
//@fn error.rs "From<FrameDecodeError> for ConnectionError" from
//@sig: fn from(e: FrameDecodeError) -> Self
//@as: fn error(self) -> (r: ConnectionError)
//@start_exec: let e = self;
//@end
}
/// What ? does.
pub trait Branch: Sized {
    type O; type E: Erring;
    spec fn branch_spec(self) -> Result<Self::O, Self::E>;
    fn branch(self) -> (r: Result<Self::O, Self::E>) ensures r == self.branch_spec();
}
impl<T, E: Erring> Branch for Result<T, E> {
    type O = T; type E = E;
    open spec fn branch_spec(self) -> Result<T, E> { self }
    fn branch(self) -> (r: Result<T, E>) { self }
}
impl<T, E: Erring> Branch for Poll<Result<T, E>> {
    type O = Poll<T>; type E = E;
    open spec fn branch_spec(self) -> Result<Poll<T>, E> {
        match self { Poll::Ready(Ok(x)) => Ok(Poll::Ready(x)), Poll::Ready(Err(e)) => Err(e), Poll::Pending => Ok(Poll::Pending) }
    }
    fn branch(self) -> (r: Result<Poll<T>, E>) {
        match self { Poll::Ready(Ok(x)) => Ok(Poll::Ready(x)), Poll::Ready(Err(e)) => Err(e), Poll::Pending => Ok(Poll::Pending) }
    }
}
impl<T> Poll<T> {
    pub fn is_ready(&self) -> (r: bool) ensures r == (self is Ready) { match self { Poll::Ready(_) => true, Poll::Pending => false } }
}
pub fn holds(b: bool) requires b {}
pub fn drop<T>(x: T) {}
pub assume_specification<T>[Option::<T>::replace](o: &mut Option<T>, x: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(x);

/// A stream's command queue in the set of all queues, under the stream's identifier.
pub struct TaggedStream { pub id: StreamId }
impl TaggedStream {
    pub fn new<R>(id: StreamId, inner: R) -> (r: TaggedStream) ensures r.id == id { TaggedStream { id } }
}
// SelectAll<TaggedStream<StreamId, Receiver<StreamCommand>>> (TaggedStream: C12).
#[verifier::external_body]
pub struct Receivers { x: u8 }
impl Receivers {
    /// The queues whose end was not reported yet.
    pub uninterp spec fn ids(self) -> Set<StreamId>;
    /// All that was ever taken out, in order.
    pub uninterp spec fn taken(self) -> Seq<(StreamId, Option<StreamCommand>)>;
    /// The task is woken by the next command.
    pub uninterp spec fn waited(self) -> bool;
    /// No more commands are accepted.
    pub uninterp spec fn all_closed(self) -> bool;
    #[verifier::external_body]
    pub fn push(&mut self, t: TaggedStream)
        ensures final(self).ids() == old(self).ids().insert(t.id), final(self).taken() == old(self).taken() { unimplemented!() }
    #[verifier::external_body]
    pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<(StreamId, Option<StreamCommand>)>>)
        ensures
            final(cx).waker == old(cx).waker,
            final(self).all_closed() == old(self).all_closed(),
            match r {
                Poll::Ready(Some((id, c))) => old(self).ids().contains(id) && final(self).taken() == old(self).taken().push((id, c))
                    && final(self).ids() == (if c is None { old(self).ids().remove(id) } else { old(self).ids() })
                    && (c matches Some(StreamCommand::SendFrame(f)) ==> f.header.kind is Data || f.header.kind is WindowUpdate),
                Poll::Ready(None) => old(self).ids() =~= Set::empty() && final(self).ids() == old(self).ids() && final(self).taken() == old(self).taken(),
                Poll::Pending => final(self).waited() && final(self).ids() == old(self).ids() && final(self).taken() == old(self).taken(),
            } { unimplemented!() }
    #[verifier::external_body]
    pub fn close_all(&mut self)
        ensures final(self).ids() == old(self).ids(), final(self).taken() == old(self).taken(), final(self).all_closed() { unimplemented!() }
}
pub open spec fn is_close(f: Frame, id: StreamId, ack: bool) -> bool {
    f.header == (Header { flags: flags(false, ack, true), ..Header::new(Tag::Data, id, 0) }) && f.body@ == Seq::<u8>::empty()
}

// Fuse<Io<T>> (C02, C03).
#[verifier::external_body]
pub struct Socket { x: u8 }
impl Socket {
    /// All frames that were ever handed over, in order.
    pub uninterp spec fn sent(self) -> Seq<Frame>;
    /// All frames that were ever delivered, in order.
    pub uninterp spec fn got(self) -> Seq<Frame>;
    pub uninterp spec fn ready(self) -> bool;
    /// A frame was handed over and no flush was asked for since.
    pub uninterp spec fn dirty(self) -> bool;
    /// The task is woken when the socket takes more.
    pub uninterp spec fn wwaited(self) -> bool;
    /// The task is woken when the socket has more.
    pub uninterp spec fn rwaited(self) -> bool;
    pub uninterp spec fn closed(self) -> bool;
    /// The error that it reported.
    pub uninterp spec fn error(self) -> Option<ConnectionError>;
    /// It reported its end.
    pub uninterp spec fn ended(self) -> bool;
    pub open spec fn fails<A>(self, o: Socket, r: Poll<io::Result<A>>) -> bool {
        self.ended() == o.ended() && self.error() == match r { Poll::Ready(Err(e)) => Some(ConnectionError::Io(e)), _ => o.error() }
    }
    #[verifier::external_body]
    pub fn poll_ready(&mut self, cx: &mut Context) -> (r: Poll<io::Result<()>>)
        ensures final(self).fails(*old(self), r), final(cx).waker == old(cx).waker, final(self).sent() == old(self).sent(), final(self).got() == old(self).got(), final(self).dirty() == old(self).dirty(),
            final(self).rwaited() == old(self).rwaited(), final(self).closed() == old(self).closed(),
            final(self).ready() == (r matches Poll::Ready(Ok(_))), final(self).wwaited() == (r is Pending || old(self).wwaited()) { unimplemented!() }
    #[verifier::external_body]
    pub fn start_send(&mut self, f: Frame) -> (r: io::Result<()>)
        requires old(self).ready(), old(self).error() is None,
        ensures final(self).fails(*old(self), Poll::Ready(r)),
            r is Ok ==> final(self).sent() == old(self).sent().push(f) && final(self).dirty() && !final(self).ready(),
            r is Err ==> final(self).sent() == old(self).sent(),
            final(self).got() == old(self).got(), final(self).wwaited() == old(self).wwaited(), final(self).rwaited() == old(self).rwaited(), final(self).closed() == old(self).closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn poll_flush(&mut self, cx: &mut Context) -> (r: Poll<io::Result<()>>)
        ensures final(self).fails(*old(self), r), final(cx).waker == old(cx).waker, final(self).sent() == old(self).sent(), final(self).got() == old(self).got(), !(r matches Poll::Ready(Err(_))) ==> !final(self).dirty(),
            final(self).rwaited() == old(self).rwaited(), final(self).closed() == old(self).closed(), final(self).wwaited() == (r is Pending || old(self).wwaited()) { unimplemented!() }
    #[verifier::external_body]
    pub fn poll_close(&mut self, cx: &mut Context) -> (r: Poll<io::Result<()>>)
        ensures final(self).fails(*old(self), r), final(cx).waker == old(cx).waker, final(self).sent() == old(self).sent(), final(self).got() == old(self).got(),
            final(self).closed() == (r matches Poll::Ready(Ok(_))) || old(self).closed(), final(self).wwaited() == (r is Pending || old(self).wwaited()),
            final(self).rwaited() == old(self).rwaited() { unimplemented!() }
    #[verifier::external_body]
    pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<Result<Frame, FrameDecodeError>>>)
        ensures final(cx).waker == old(cx).waker, final(self).sent() == old(self).sent(), final(self).dirty() == old(self).dirty(),
            final(self).wwaited() == old(self).wwaited(), final(self).closed() == old(self).closed(), final(self).rwaited() == (r is Pending || old(self).rwaited()),
            final(self).ended() == (old(self).ended() || r matches Poll::Ready(None)),
            final(self).error() == match r { Poll::Ready(Some(Err(e))) => Some(ConnectionError::Decode(e)), _ => old(self).error() },
            match r {
                Poll::Ready(Some(Ok(f))) => final(self).got() == old(self).got().push(f) && f.read_ok(),
                _ => final(self).got() == old(self).got(),
            } { unimplemented!() }
}
