//@include prelude.rs
verus! {
//@include base_chunks.rs
//@include base_frames.rs
#[derive(Copy, Clone)]
pub struct Rtt { pub x: u8 }
//@include base_shared.rs
impl Stream {
    /// What stays as it is in every call.
    spec fn fixed(self, o: Stream) -> bool { self.id == o.id && self.conn == o.conn && self.config == o.config }
    spec fn flag_syn(self) -> bool { self.flag is Syn }
    spec fn flag_ack(self) -> bool { self.flag is Ack }
    spec fn queued_one(self, o: Stream) -> bool {
        self.sender.queued().len() == o.sender.queued().len() + 1 && self.sender.queued().drop_last() =~= o.sender.queued()
    }
    /// The state is as before, or the stream was accepted with the acknowledgement it still owed.
    spec fn acked(self, o: Stream) -> bool {
        self.shared.state == o.shared.state || o.flag_ack() && self.shared.state == o.shared.state.after(State::Open { acknowledged: true })
    }
    /// At most one frame was queued: a window update, with the flag if it is the first frame of the stream.
    spec fn updated(self, o: Stream, ready: bool, err: bool) -> bool {
        ||| self.sender.queued() == o.sender.queued() && (!err ==> self.flag == o.flag && self.shared.state == o.shared.state)
        ||| self.queued_one(o) && o.shared.state.reads() && self.flag is None && self.acked(o)
            && (self.sender.queued().last() matches StreamCommand::SendFrame(f)
                && f.header == (Header { kind: Tag::WindowUpdate, id: o.id, len: f.header.len, flags: flags(o.flag_syn(), o.flag_ack(), false) }))
    }
    spec fn waits_for_queue(self, o: Stream) -> bool {
        self.sender.waited() && self.sender.queued() == o.sender.queued()
    }

    #[verifier::external_body]
    fn write_zero_err(&self) -> (r: io::Error) ensures r.kind == io::ErrorKind::WriteZero { unimplemented!() }
//@fn connection/stream.rs "Stream" new_inbound
//@sig: fn new_inbound(id: StreamId, conn: connection::Id, config: Arc<Config>, send_window: u32, sender: mpsc::Sender<StreamCommand>, rtt: rtt::Rtt, accumulated_max_stream_windows: Arc<Mutex<usize>>) -> Self
//@as: fn new_inbound(id: StreamId, conn: connection::Id, config: Config, send_window: u32, sender: mpsc::Sender<StreamCommand>, rtt: Rtt, accumulated_max_stream_windows: Counter) -> (r: Stream)
//@spec: ensures r.id == id, r.conn == conn, r.config == config, r.sender == sender, r.flag is Ack, r.shared.fresh(DEFAULT_CREDIT, send_window)
//@end
//@fn connection/stream.rs "Stream" new_outbound
//@sig: fn new_outbound(id: StreamId, conn: connection::Id, config: Arc<Config>, sender: mpsc::Sender<StreamCommand>, rtt: rtt::Rtt, accumulated_max_stream_windows: Arc<Mutex<usize>>) -> Self
//@as: fn new_outbound(id: StreamId, conn: connection::Id, config: Config, sender: mpsc::Sender<StreamCommand>, rtt: Rtt, accumulated_max_stream_windows: Counter) -> (r: Stream)
//@spec: ensures r.id == id, r.conn == conn, r.config == config, r.sender == sender, r.flag is Syn, r.shared.fresh(DEFAULT_CREDIT, DEFAULT_CREDIT)
//@end
//@fn connection/stream.rs "Stream" add_flag
//@sig: fn add_flag(&mut self, header: &mut Header<Either<Data, WindowUpdate>>)
//@as: fn add_flag(&mut self, header: &mut Header)
//@spec:
    ensures
        *final(self) == (Stream { flag: Flag::None, ..*old(self) }),
        *final(header) == (Header { flags: Flags { syn: old(header).flags.syn || old(self).flag_syn(), ack: old(header).flags.ack || old(self).flag_ack(), ..old(header).flags }, ..*old(header) }),
//@end
//@fn connection/stream.rs "Stream" send_window_update
//@sig: fn send_window_update(&mut self, cx: &mut Context) -> Poll<io::Result<()>>
//@as: fn send_window_update(&mut self, cx: &mut Context) -> (r: Poll<io::Result<()>>)
//@spec:
    requires old(self).shared.buffer.wf(),
//@ensures:
        final(self).fixed(*old(self)),
        final(self).shared.buffer == old(self).shared.buffer,
        final(self).shared.flow_controller.send_window == old(self).shared.flow_controller.send_window,
        final(self).shared.reader == old(self).shared.reader, final(self).shared.writer == old(self).shared.writer,
        final(self).sender.closed() == old(self).sender.closed(),
        final(cx).waker == old(cx).waker,
        final(self).shared.state.reads() == old(self).shared.state.reads(),
//@ensures C08:
        final(self).acked(*old(self)),
//@ensures C11:
        final(self).updated(*old(self), r is Ready, r is Ready && r->Ready_0 is Err),
//@end
//@fn connection/stream.rs "futures::stream::Stream for Stream" poll_next
//@sig: fn poll_next(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>>
//@as: fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<io::Result<Packet>>>)
//@spec:
    requires old(self).shared.buffer.wf(),
//@ensures:
        final(self).shared.buffer.wf(), final(self).fixed(*old(self)),
//@ensures C04:
        match r {
            // The next bytes, in order: what was there is what came out followed by what is still there.
            Poll::Ready(Some(Ok(p))) => old(self).shared.buffer.view() =~= p.0@ + final(self).shared.buffer.view(),
            Poll::Ready(Some(Err(_))) => final(self).shared.buffer == old(self).shared.buffer,
            // The end: nothing is left, or it was asked not to read after the connection closed.
            Poll::Ready(None) => final(self).shared.buffer.view() =~= old(self).shared.buffer.view()
                && (!old(self).config.read_after_close && old(self).sender.closed() || final(self).shared.buffer.view().len() == 0 && !old(self).shared.state.reads()),
            Poll::Pending => final(self).shared.buffer.view() =~= old(self).shared.buffer.view() && final(self).shared.buffer.view().len() == 0
                && old(self).shared.state.reads(),
        },
//@ensures C05:
        final(self).shared.flow_controller.send_window == old(self).shared.flow_controller.send_window,
//@ensures C08:
        final(self).acked(*old(self)),
//@ensures C11:
        final(self).updated(*old(self), false, true),
//@ensures C15:
        final(self).shared.writer == old(self).shared.writer,
        r is Pending ==> final(self).shared.reader == Some(old(cx).waker) && final(self).shared.state.reads() && final(self).shared.buffer.view().len() == 0,
//@end
//@fn connection/stream.rs "AsyncRead for Stream" poll_read
//@sig: fn poll_read(self: Pin<&mut Self>, cx: &mut Context, buf: &mut [u8]) -> Poll<io::Result<usize>>
//@as: fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<io::Result<usize>>)
//@spec:
    requires old(self).shared.buffer.wf(),
//@ensures:
        final(self).shared.buffer.wf(), final(self).fixed(*old(self)),
        final(buf)@.len() == old(buf)@.len(),
//@ensures C04:
        match r {
            Poll::Ready(Ok(n)) => {
                &&& n <= old(buf)@.len()
                // The next n bytes, in order: what was there is what came out followed by what is still there.
                &&& old(self).shared.buffer.view() =~= final(buf)@.take(n as int) + final(self).shared.buffer.view()
                &&& final(buf)@.skip(n as int) =~= old(buf)@.skip(n as int)
                &&& !old(self).config.read_after_close && old(self).sender.closed() && n == 0
                    || n == old(buf)@.len() || final(self).shared.buffer.view().len() == 0
                // Zero bytes for a buffer that has room mean the end.
                &&& n == 0 && old(buf)@.len() > 0 ==> !old(self).config.read_after_close && old(self).sender.closed() || !old(self).shared.state.reads()
            },
            Poll::Ready(Err(_)) => final(self).shared.buffer == old(self).shared.buffer && final(buf)@ == old(buf)@,
            Poll::Pending => final(self).shared.buffer.view() =~= old(self).shared.buffer.view() && final(buf)@ =~= old(buf)@
                && (old(buf)@.len() > 0 ==> final(self).shared.buffer.view().len() == 0)
                && old(self).shared.state.reads(),
        },
//@ensures C05:
        final(self).shared.flow_controller.send_window == old(self).shared.flow_controller.send_window,
//@ensures C08:
        final(self).acked(*old(self)),
//@ensures C11:
        final(self).updated(*old(self), false, true),
//@ensures C15:
        final(self).shared.writer == old(self).shared.writer,
        r is Pending ==> final(self).shared.reader == Some(old(cx).waker) && final(self).shared.state.reads()
            && (old(buf)@.len() > 0 ==> final(self).shared.buffer.view().len() == 0),
//@start: broadcast use front_changed;
//@loop:
    invariant
        shared.buffer.wf(), n <= buf@.len(), buf@.len() == old(buf)@.len(),
        old(self).shared.buffer.view() =~= buf@.take(n as int) + shared.buffer.view(),
        forall|i: int| n <= i < buf@.len() ==> buf@[i] == old(buf)@[i],
    ensures
        n == buf@.len() || shared.buffer.view().len() == 0,
    decreases shared.buffer.seq@.len(), buf@.len() - n,
//@end
//@fn connection/stream.rs "AsyncWrite for Stream" poll_write
//@sig: fn poll_write(self: Pin<&mut Self>, cx: &mut Context, buf: &[u8]) -> Poll<io::Result<usize>>
//@as: fn poll_write(&mut self, cx: &mut Context, buf: &[u8]) -> (r: Poll<io::Result<usize>>)
//@ensures:
        final(self).fixed(*old(self)),
//@ensures C04:
        final(self).shared.buffer == old(self).shared.buffer,
        // What is accepted goes out as it is, behind what was accepted before.
        match r {
            Poll::Ready(Ok(n)) => n <= buf@.len() && final(self).queued_one(*old(self))
                && (final(self).sender.queued().last() matches StreamCommand::SendFrame(f) && f.body@ =~= buf@.take(n as int)),
            _ => final(self).sender.queued() == old(self).sender.queued(),
        },
//@ensures C05:
        match r {
            Poll::Ready(Ok(n)) => {
                let w = old(self).shared.flow_controller.send_window;
                // As much as the credit, the split size and the buffer allow, and the credit pays for it.
                &&& w > 0
                &&& n <= w && n <= buf@.len() && n <= old(self).config.split_send_size
                &&& n == w || n == buf@.len() || n == old(self).config.split_send_size
                &&& final(self).shared.flow_controller.send_window == w - n
                &&& final(self).queued_one(*old(self))
                &&& (final(self).sender.queued().last() matches StreamCommand::SendFrame(f) && f.body@ =~= buf@.take(n as int)
                        && f.header.kind is Data && f.header.id == old(self).id && f.header.len == n)
            },
            Poll::Ready(Err(e)) => final(self).sender.queued() == old(self).sender.queued(),
            Poll::Pending => final(self).sender.queued() == old(self).sender.queued()
                && final(self).shared.flow_controller == old(self).shared.flow_controller,
        },
//@ensures C08:
        match r {
            Poll::Ready(Ok(n)) => old(self).shared.state.writes() && final(self).acked(*old(self)),
            Poll::Ready(Err(e)) => e.kind == io::ErrorKind::WriteZero && final(self).acked(*old(self)),
            Poll::Pending => final(self).shared.state == old(self).shared.state,
        },
//@ensures C11:
        match r {
            Poll::Ready(Ok(n)) => {
                &&& final(self).queued_one(*old(self))
                &&& (final(self).sender.queued().last() matches StreamCommand::SendFrame(f)
                        && f.header == (Header { kind: Tag::Data, id: old(self).id, len: f.header.len, flags: flags(old(self).flag_syn(), old(self).flag_ack(), false) }))
                &&& final(self).flag is None
                &&& final(self).shared.state == if old(self).flag_ack() { old(self).shared.state.after(State::Open { acknowledged: true }) } else { old(self).shared.state }
            },
            Poll::Ready(Err(e)) => final(self).sender.queued() == old(self).sender.queued(),
            Poll::Pending => final(self).sender.queued() == old(self).sender.queued() && final(self).flag == old(self).flag
                && final(self).shared.state == old(self).shared.state,
        },
//@ensures C15:
        final(self).shared.reader == old(self).shared.reader,
        final(self).shared.writer == old(self).shared.writer && (r is Pending ==> final(self).waits_for_queue(*old(self)))
            || r is Pending && old(self).shared.flow_controller.send_window == 0 && old(self).shared.state.writes() && final(self).shared.writer == Some(old(cx).waker),
//@end
//@fn connection/stream.rs "Stream" is_closed ref
//@sig: fn is_closed(&self) -> bool
//@as: fn is_closed(&self) -> (r: bool)
//@spec: ensures r == (self.shared.state is Closed)
//@end
//@fn connection/stream.rs "Stream" is_write_closed ref
//@sig: fn is_write_closed(&self) -> bool
//@as: fn is_write_closed(&self) -> (r: bool)
//@spec: ensures r == (self.shared.state is SendClosed)
//@end
//@fn connection/stream.rs "AsyncWrite for Stream" poll_flush
//@sig: fn poll_flush(self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>>
//@as: fn poll_flush(&mut self, cx: &mut Context) -> (r: Poll<io::Result<()>>)
//@ensures:
        *final(self) == (Stream { sender: final(self).sender, ..*old(self) }),
        final(self).sender.queued() == old(self).sender.queued(),
        r matches Poll::Ready(Err(e)) ==> e.kind == io::ErrorKind::WriteZero,
//@end
//@fn connection/stream.rs "AsyncWrite for Stream" poll_close
//@sig: fn poll_close(self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>>
//@as: fn poll_close(&mut self, cx: &mut Context) -> (r: Poll<io::Result<()>>)
//@ensures:
        final(self).fixed(*old(self)),
        final(self).shared == (Shared { state: final(self).shared.state, ..old(self).shared }),
//@ensures C08:
        match r {
            Poll::Ready(Ok(())) => final(self).shared.state == old(self).shared.state.after(State::SendClosed),
            _ => final(self).shared.state == old(self).shared.state,
        },
//@ensures C11 C12:
        match r {
            // Once closed, nothing more is sent.
            Poll::Ready(Ok(())) => {
                ||| (old(self).shared.state is Closed || old(self).shared.state is SendClosed) && *final(self) == *old(self)
                ||| {
                    &&& !(old(self).shared.state is Closed) && !(old(self).shared.state is SendClosed)
                    &&& final(self).flag is None
                    &&& final(self).queued_one(*old(self))
                    // The FIN goes behind all that was queued; it opens or accepts the stream if nothing else did.
                    &&& match final(self).sender.queued().last() {
                        StreamCommand::SendFrame(f) => old(self).flag_syn() && f.body@.len() == 0
                            && f.header == (Header { kind: Tag::Data, id: old(self).id, len: 0, flags: flags(true, false, true) }),
                        StreamCommand::CloseStream { ack } => !old(self).flag_syn() && ack == old(self).flag_ack(),
                    }
                }
            },
            Poll::Ready(Err(e)) => e.kind == io::ErrorKind::WriteZero && final(self).sender.queued() == old(self).sender.queued() && final(self).shared == old(self).shared,
            Poll::Pending => final(self).sender.queued() == old(self).sender.queued() && final(self).shared == old(self).shared && final(self).flag == old(self).flag,
        },
//@end
}
}
fn main() {}
