// C20 (attached to connection.rs): what the connection puts on the wire, and when it may wait.
//
// The framed socket is replaced by its contract (C02, C03); a call of `poll` sees a bounded number of
// events, from an arbitrary state. The loop in `poll` keeps nothing from one round to the next but
// the connection itself, so that any longer run is a sequence of such calls.
use super::verif_acc::*;
use super::*;
use crate::frame::Io;
use vsupport::*;

/// A frame as it waits in one of the connection's slots.
fn slot(i: u32) -> Option<Frame<()>> {
    if kani::any() {
        let mut h = Header::data(StreamId::new(i), kani::any());
        if kani::any() {
            h.fin();
        }
        Some(Frame::new(h).into())
    } else {
        None
    }
}
fn is_ping(x: Num) -> bool {
    x.0 == 2 && x.1 == 1 && x.2 == 0
}
/// A call that is pending leaves nothing undone that could be done, and its task is registered
/// wherever an event could come from.
fn settled<T>(a: &Active<T>) {
    let s = sock();
    assert!(!s.dirty, "everything sent was flushed");
    if a.pending_read_frame.is_some() || a.pending_write_frame.is_some() {
        assert!(s.write_pending, "a frame waits only for the socket");
    }
    if a.pending_read_frame.is_none() {
        assert!(s.read_pending, "waits for frames");
    }
    if a.pending_write_frame.is_none() {
        assert!(s.commands_pending, "waits for commands");
        if s.no_streams {
            assert!(is_waker(&a.no_streams_waker, TASK), "waits for a stream");
        }
    }
}
/// Frames that wait in the slots, and pings.
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c20_slots() {
    let s = sock();
    s.on = true;
    s.streams_on = true;
    s.no_streams = kani::any();
    s.ready_budget = 3;
    s.item_budget = 0;
    let mut a = any_active(NoIo);
    a.rtt = sa::any_rtt();
    a.pending_read_frame = slot(0);
    a.pending_write_frame = slot(1);
    let (r0, w0) = (num(&a.pending_read_frame), num(&a.pending_write_frame));
    let waiting = ra::awaiting(&a.rtt);
    let id = ra::next_id(&a.rtt);
    let w = waker(TASK);
    let mut cx = Context::from_waker(&w);
    let r = std::mem::ManuallyDrop::new(a.poll(&mut cx));
    let (r1, w1) = (num(&a.pending_read_frame), num(&a.pending_write_frame));
    // A ping may go first; then the answer to the peer, then the stream's frame.
    let ping = s.sent > 0 && is_ping(sent_frame(0));
    if ping {
        assert!(waiting.is_none(), "one ping at a time");
        assert!(s.log[0][3] == id as u64 && ra::awaiting(&a.rtt).map(|x| x.1) == Some(id));
    } else {
        assert!(ra::awaiting(&a.rtt) == waiting);
    }
    let mut k = ping as usize;
    if r0.is_some() && r1.is_none() {
        assert!((s.sent as usize) > k && sent_frame(k) == r0.unwrap(), "the answer is sent");
        k += 1;
    } else {
        assert!(r1 == r0);
    }
    if w0.is_some() && w1.is_none() {
        assert!((s.sent as usize) > k && sent_frame(k) == w0.unwrap(), "the frame is sent");
        k += 1;
    } else {
        assert!(w1 == w0);
    }
    assert!(s.sent as usize == k, "and nothing else");
    match &*r {
        Poll::Pending => {
            settled(&a);
            kani::cover!(k == 3, "three frames");
            kani::cover!(k == 0 && r0.is_some(), "not ready");
        }
        Poll::Ready(Err(ConnectionError::Io(_))) => assert!(s.failed),
        _ => assert!(false),
    }
    assert!(!s.failed || matches!(&*r, Poll::Ready(Err(ConnectionError::Io(_)))), "a failed socket is reported");
    std::mem::forget(a);
}
/// The contract of `on_drop_stream`: a last frame or none (C12 decides which). Register 4 + i tells
/// what the i-th command, the end of a stream, led to.
fn on_drop_stream_contract<T: AsyncRead + AsyncWrite + Unpin>(_: &mut Active<T>, id: StreamId) -> Option<Frame<()>> {
    let i = sock().commands as usize - 1;
    assert!(sock().command[i][0] == 0 && sock().command[i][3] == id.val() as u64, "the stream that ended is cleaned up");
    assert!(reg(4 + i) == 0, "once");
    let f = slot(id.val());
    set_reg(4 + i, match &f { None => 1, Some(f) => 2 + (f.header().flags().val() as u64) + ((f.header().len().val() as u64) << 8) });
    f
}
fn dropped(i: usize) -> Option<Num> {
    assert!(reg(4 + i) > 0, "a stream that ended is cleaned up");
    if reg(4 + i) == 1 {
        return None;
    }
    let x = reg(4 + i) - 2;
    Some((0, x & 0xff, sock().command[i][3], x >> 8, 0))
}
/// Commands of streams, also of streams that the application has dropped.
#[kani::proof]
#[kani::unwind(7)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
#[kani::stub(crate::connection::Active::on_frame, on_frame_contract)]
#[kani::stub(crate::connection::Active::on_drop_stream, on_drop_stream_contract)]
fn c20_commands() {
    let s = sock();
    s.on = true;
    s.streams_on = true;
    s.ready_budget = 2;
    s.command_budget = 2;
    let mut a = any_active(NoIo);
    ra::set_awaiting(&a.rtt, web_time::Instant::now(), 0);
    a.pending_write_frame = slot(1);
    let w0 = num(&a.pending_write_frame);
    let w = waker(TASK);
    let mut cx = Context::from_waker(&w);
    let r = std::mem::ManuallyDrop::new(a.poll(&mut cx));
    let w1 = num(&a.pending_write_frame);
    // The frames asked for, in order: the slot, then what each command asks for.
    let mut due = [None; 3];
    let mut n = 0;
    if w0.is_some() {
        due[0] = w0;
        n = 1;
    }
    if s.commands > 0 {
        let x = match asked(0) { None => dropped(0), x => x };
        if x.is_some() {
            due[n] = x;
            n += 1;
        }
    }
    if s.commands > 1 {
        let x = match asked(1) { None => dropped(1), x => x };
        if x.is_some() {
            due[n] = x;
            n += 1;
        }
    }
    let k = s.sent as usize;
    assert!(k + w1.is_some() as usize == n, "nothing is lost, nothing is added");
    if k > 0 {
        assert!(due[0] == Some(sent_frame(0)), "sent in order, each once");
    }
    if k > 1 {
        assert!(due[1] == Some(sent_frame(1)), "sent in order, each once");
    }
    if w1.is_some() {
        assert!(w1 == due[k], "the last one waits");
    }
    match &*r {
        Poll::Pending => {
            settled(&a);
            kani::cover!(k == 2 && w1.is_some(), "two sent, one waits");
            kani::cover!(k == 0 && w1.is_some(), "waits");
            kani::cover!(k == 0 && n == 0, "idle");
        }
        Poll::Ready(Err(ConnectionError::Io(_))) => assert!(s.failed),
        _ => assert!(false),
    }
    std::mem::forget(a);
}
/// The contract of `on_frame`: any outcome (C06, C08, C09, C13 decide which). Register 0 tells which.
fn on_frame_contract<T: AsyncRead + AsyncWrite + Unpin>(a: &mut Active<T>, frame: Frame<()>) -> Result<Action> {
    assert!(tuple(fra::numbers(&frame)) == tuple(sock().item), "the frame that was read is handled");
    std::mem::forget(frame);
    let k: u8 = kani::any();
    kani::assume(k < 5);
    set_reg(0, reg(0) * 10 + 1 + k as u64);
    set_reg(1, kani::any::<u32>() as u64);
    match k {
        0 => Ok(Action::None),
        1 => {
            let mut h = Header::ping(reg(1) as u32);
            h.ack();
            Ok(Action::Ping(Frame::new(h)))
        }
        2 => Ok(Action::Terminate(Frame::protocol_error())),
        3 => {
            let (tx, _rx) = mpsc::channel(10);
            std::mem::forget(_rx);
            Ok(Action::New(Stream::new_inbound(
                StreamId::new(reg(1) as u32), a.id, a.config.clone(), 0, tx, a.rtt.clone(), a.accumulated_max_stream_windows.clone(),
            )))
        }
        _ => Err(ConnectionError::Closed),
    }
}
/// What the peer sends.
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
#[kani::stub(crate::connection::Active::on_frame, on_frame_contract)]
fn c20_inbound() {
    let s = sock();
    s.on = true;
    s.streams_on = true;
    s.ready_budget = 0;
    s.item_budget = 1;
    let mut a = any_active(NoIo);
    ra::set_awaiting(&a.rtt, web_time::Instant::now(), kani::any());
    a.pending_read_frame = slot(0);
    a.pending_write_frame = slot(1);
    let (r0, w0) = (num(&a.pending_read_frame), num(&a.pending_write_frame));
    let w = waker(TASK);
    let mut cx = Context::from_waker(&w);
    let r = std::mem::ManuallyDrop::new(a.poll(&mut cx));
    let (r1, w1) = (num(&a.pending_read_frame), num(&a.pending_write_frame));
    assert!(w1 == w0 && s.sent == 0);
    if r0.is_some() {
        assert!(r1 == r0 && s.items == 0, "nothing is read while an answer waits");
    }
    let handled = reg(0);
    assert!(handled < 10, "each frame is handled once");
    assert!((handled > 0) == (s.items == 1 && s.item[0] != 99), "each frame that was read is handled");
    if r0.is_none() {
        match handled {
            2 => {
                assert!(r1 == Some((2, 2, 0, reg(1), 0)), "the pong waits to be sent");
                kani::cover!(r.is_pending(), "pong");
            }
            3 => {
                assert!(r1 == Some((3, 0, 0, 1, 0)), "the reason waits to be sent");
                kani::cover!(r.is_pending(), "go away");
            }
            _ => assert!(r1.is_none()),
        }
    }
    match &*r {
        Poll::Pending => {
            settled(&a);
            assert!(!s.failed && !s.ended && handled < 4 && s.item[0] != 99);
        }
        Poll::Ready(Ok(x)) => {
            assert!(handled == 4 && x.id().val() as u64 == reg(1), "a new stream is handed out");
            kani::cover!(true, "new stream");
        }
        Poll::Ready(Err(ConnectionError::Closed)) => {
            assert!(s.ended || handled == 5);
            kani::cover!(s.ended, "end of the connection");
            kani::cover!(handled == 5, "closed by the peer");
        }
        Poll::Ready(Err(ConnectionError::Decode(_))) => {
            assert!(s.items == 1 && s.item[0] == 99);
            kani::cover!(true, "undecodable");
        }
        Poll::Ready(Err(ConnectionError::Io(_))) => assert!(s.failed),
        _ => assert!(false),
    }
    std::mem::forget(a);
}
