// C11 (attached to connection/stream.rs): the first frame of a stream, and only it, opens or accepts it.
use super::verif_acc::*;
use super::*;
const SYN: u16 = 1;
const ACK: u16 = 2;
const FIN: u16 = 4;

fn check(c: &Call) {
    match c.sent {
        None => assert!(c.post_flag == c.flag && c.count == 0, "the flag is still due while nothing was sent"),
        Some(s) => {
            assert!(c.count == 1 && c.post_flag == Flag::None, "sent once");
            let (syn, ack) = match s.kind {
                Kind::Close(ack) => (false, ack),
                _ => {
                    assert!(s.flags & !(SYN | ACK | FIN) == 0 && s.id == c.id);
                    (s.has(SYN), s.has(ACK))
                }
            };
            assert!(syn == (c.flag == Flag::Syn), "SYN on the first frame of a stream that we opened, and only there");
            assert!(ack == (c.flag == Flag::Ack), "ACK on the first frame of a stream that we accepted, and only there");
            if s.has(FIN) {
                assert!(c.op == Op::Close);
            }
            if ack && c.op != Op::Close {
                assert!(c.post.state != State::Open { acknowledged: false });
            }
            kani::cover!(syn, "opt:syn");
            kani::cover!(ack, "opt:ack");
            kani::cover!(true, "sent");
        }
    }
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c11_poll_write() {
    check(&call(Op::Write, 4, true));
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c11_poll_read() {
    check(&call(Op::Read, 4, true));
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c11_poll_next() {
    check(&call(Op::Next, 0, true));
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c11_poll_close() {
    check(&call(Op::Close, 0, true));
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c11_poll_flush() {
    let c = call(Op::Flush, 0, true);
    assert!(c.count == 0 && c.post_flag == c.flag);
}
