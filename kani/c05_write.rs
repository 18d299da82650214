// C05 (attached to connection/stream.rs): a write takes credit for what it sends and never more.
use super::verif_acc::*;
use super::*;
use vsupport::*;

#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c05_poll_write() {
    let n: usize = kani::any();
    kani::assume(n <= 1 << 40);
    let c = call(Op::Write, n, false);
    match c.res {
        Res::Ok(k) => {
            assert!(!c.closed && !c.full && c.pre.state.can_write() && c.pre.send > 0);
            // As much as asked for, within the credit and the configured frame size.
            assert!(k == std::cmp::min(n, std::cmp::min(c.pre.send as usize, c.split)));
            assert!(c.post.send == c.pre.send - k as u32, "every byte takes one byte of credit");
            let s = c.sent.unwrap();
            assert!(c.count == 1 && s.kind == Kind::Data && s.id == c.id && s.len as usize == k && s.body == k);
            kani::cover!(k == c.pre.send as usize && k < n, "all credit used");
            kani::cover!(k == c.split && k < n, "split");
        }
        Res::Pending => {
            assert!(c.count == 0 && c.post.send == c.pre.send);
            assert!(!c.closed && (c.full || c.pre.send == 0));
            kani::cover!(!c.full, "no credit");
        }
        _ => assert!(c.count == 0 && c.post.send == c.pre.send),
    }
}
/// The bytes sent are the bytes given.
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c05_write_bytes() {
    let (mut s, rx) = any_stream();
    let buf: [u8; 4] = kani::any();
    let w = waker(TASK);
    let mut cx = Context::from_waker(&w);
    let r = std::mem::ManuallyDrop::new(Pin::new(&mut s).poll_write(&mut cx, &buf));
    if let Poll::Ready(Ok(k)) = &*r {
        match &rx.chan().q0 {
            Some(StreamCommand::SendFrame(f)) => {
                let b = crate::frame::verif_acc::body(f);
                assert!(b.len() == *k);
                let i: usize = kani::any();
                if i < *k {
                    assert!(b[i] == buf[i]);
                }
                kani::cover!(*k == 3, "partial");
            }
            _ => assert!(false),
        }
    }
    std::mem::forget((s, rx));
}
/// No other operation of the application changes the send credit.
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c05_other_calls() {
    let k: u8 = kani::any();
    let c = match k {
        0 => call(Op::Read, 4, true),
        1 => call(Op::Next, 0, true),
        2 => call(Op::Flush, 0, true),
        _ => call(Op::Close, 0, true),
    };
    assert!(c.post.send == c.pre.send);
    if let Some(s) = c.sent {
        assert!(s.kind != Kind::Data || s.body == 0, "payload is sent by writes only");
    }
}
/// A stream that we open starts with the credit that the protocol grants.
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c05_initial() {
    let config = Arc::new(any_config());
    let acc = Arc::new(Mutex::new(kani::any()));
    let (tx, rx) = mpsc::channel(10);
    let id: u32 = kani::any();
    let w: u32 = kani::any();
    let outbound: bool = kani::any();
    let s = if outbound {
        Stream::new_outbound(StreamId::new(id), connection::Id::next(), config, tx, any_rtt(), acc)
    } else {
        Stream::new_inbound(StreamId::new(id), connection::Id::next(), config, w, tx, any_rtt(), acc)
    };
    let p = snap(&s.shared());
    assert!(s.id.val() == id && p.send == if outbound { 256 * 1024 } else { w });
    assert!(p.recv == 256 * 1024 && p.max == 256 * 1024 && p.buffered == 0);
    assert!(p.state == State::Open { acknowledged: false });
    assert!(s.flag == if outbound { Flag::Syn } else { Flag::Ack });
    std::mem::forget((s, rx));
}
