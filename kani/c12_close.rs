// C12 (attached to connection/stream.rs): closing a stream sends one FIN, after everything written before.
use super::verif_acc::*;
use super::*;

#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c12_poll_close() {
    let c = call(Op::Close, 0, false);
    match c.res {
        Res::Ok(_) => {
            if c.pre.state == State::Closed || c.pre.state == State::SendClosed {
                assert!(c.count == 0, "nothing is sent for a stream that was closed before");
                kani::cover!(c.pre.state == State::Closed, "closed by both");
                kani::cover!(c.pre.state == State::SendClosed, "closed before");
            } else {
                assert!(c.count == 1, "one FIN is on its way");
                let s = c.sent.unwrap();
                match s.kind {
                    Kind::Close(ack) => assert!(ack == (c.flag == Flag::Ack)),
                    Kind::Data => assert!(s.has(4) && s.body == 0 && s.len == 0 && s.id == c.id),
                    Kind::WindowUpdate => assert!(s.has(4) && s.len == 0 && s.id == c.id),
                }
                kani::cover!(c.flag == Flag::Syn, "never used");
                kani::cover!(c.flag == Flag::Ack, "not yet accepted");
            }
        }
        _ => assert!(c.count == 0 && c.post.state == c.pre.state, "not closed unless the FIN is on its way"),
    }
}
/// The FIN queues behind what was written before.
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c12_after_data() {
    let (mut s, rx) = any_stream();
    let w = vsupport::waker(TASK);
    let mut cx = Context::from_waker(&w);
    let a = std::mem::ManuallyDrop::new(Pin::new(&mut s).poll_write(&mut cx, b"xyz"));
    let written = matches!(&*a, Poll::Ready(Ok(_)));
    rx.chan().parked = false;
    let b = std::mem::ManuallyDrop::new(Pin::new(&mut s).poll_close(&mut cx));
    if written && matches!(&*b, Poll::Ready(Ok(()))) {
        let data = match &rx.chan().q0 { Some(StreamCommand::SendFrame(f)) => crate::frame::verif_acc::body(f).len() > 0 || s.config.split_send_size == 0, _ => false };
        assert!(data && rx.chan().n() == 2);
        let fin = match &rx.chan().q1 {
            Some(StreamCommand::CloseStream { ack }) => !*ack,
            Some(StreamCommand::SendFrame(f)) => f.header().flags().val() == 4 && crate::frame::verif_acc::body(f).is_empty(),
            None => false,
        };
        assert!(fin);
        kani::cover!(true, "data, then FIN");
    }
    std::mem::forget((s, rx));
}
