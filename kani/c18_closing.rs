// C18 (attached to connection/closing.rs): what is sent while a connection closes.
use super::*;
use super::super::verif_acc::*;
use vsupport::*;

/// Frames that wait, frames that streams have queued, then GoAway; then the socket is closed.
#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c18_closing() {
    let s = sock();
    s.on = true;
    s.streams_on = true;
    s.no_streams = false;
    s.command_budget = 2;
    s.ready_budget = 8;
    let mut q = VecDeque::new();
    let waiting: bool = kani::any();
    if waiting {
        q.push_back(Frame::new(crate::frame::header::Header::data(StreamId::new(77), 0)).into());
    }
    let mut all = SelectAll::default();
    let (tx1, rx1) = mpsc::channel(10);
    let (tx2, rx2) = mpsc::channel(10);
    all.push(TaggedStream::new(StreamId::new(1), rx1));
    all.push(TaggedStream::new(StreamId::new(2), rx2));
    let io = crate::frame::Io::new(crate::connection::Id::next(), NoIo);
    let mut c = Closing::new(all, q, futures::StreamExt::fuse(io));
    let w = waker(5);
    let mut cx = Context::from_waker(&w);
    let r = std::mem::ManuallyDrop::new(Pin::new(&mut c).poll(&mut cx));
    let mut due = [None; 4];
    let mut n = 0;
    if waiting {
        due[0] = Some((0, 0, 77, 0, 0));
        n = 1;
    }
    if s.commands > 0 && asked(0).is_some() {
        due[n] = asked(0);
        n += 1;
    }
    if s.commands > 1 && asked(1).is_some() {
        due[n] = asked(1);
        n += 1;
    }
    due[n] = Some((3, 0, 0, 0, 0));
    n += 1;
    let k = s.sent as usize;
    assert!(k <= n);
    let i: usize = kani::any();
    kani::assume(i < 4);
    if i < k {
        assert!(due[i] == Some(sent_frame(i)), "everything queued, in order, then GoAway");
    }
    let q = super::verif_acc::pending(&c);
    assert!(k + q.len() == n, "nothing is lost");
    if i < q.len() && k + i < 4 {
        assert!(due[k + i] == Some(tuple(fra::numbers(&q[i]))));
    }
    assert!(tx1.is_closed() && tx2.is_closed(), "no more commands are accepted");
    match &*r {
        Poll::Ready(Ok(())) => {
            assert!(k == n && s.closed, "closed when everything was sent");
            kani::cover!(n == 4, "all of it");
        }
        Poll::Pending => {
            assert!(s.write_pending, "waits for the socket");
            kani::cover!(k == 2 && n == 4, "not yet");
        }
        Poll::Ready(Err(_)) => assert!(s.failed),
    }
    if s.close_calls > 0 {
        assert!(k == n);
    }
    std::mem::forget((c, tx1, tx2));
}
