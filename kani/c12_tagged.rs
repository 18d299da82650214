// C12 (attached to tagged_stream.rs): the end of a stream's commands is reported once, after them.
use super::verif_acc::*;
use super::*;
use vsupport::*;
struct Inner {
    left: u8,
    n: u8,
}
impl Stream for Inner {
    type Item = u8;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<u8>> {
        if kani::any() {
            return Poll::Pending;
        }
        if self.left == 0 {
            return Poll::Ready(None);
        }
        self.left -= 1;
        self.n += 1;
        Poll::Ready(Some(self.n))
    }
}
/// From every state: one call.
#[kani::proof]
#[kani::unwind(2)]
fn c12_tagged() {
    let (left, n, key, done): (u8, u8, u32, bool) = (kani::any(), kani::any(), kani::any(), kani::any());
    kani::assume(n < 255 - left && (!done || left == 0));
    let mut t = TaggedStream::new(key, Inner { left, n });
    assert!(!self::done(&t), "nothing was reported yet");
    if done {
        set_done(&mut t);
    }
    let w = waker(0);
    let mut cx = Context::from_waker(&w);
    let r = Pin::new(&mut t).poll_next(&mut cx);
    match r {
        Poll::Pending => assert!(!done && !self::done(&t)),
        Poll::Ready(Some((k, Some(x)))) => assert!(!done && k == key && left > 0 && x == n + 1 && !self::done(&t)),
        Poll::Ready(Some((k, None))) => {
            assert!(!done && k == key && left == 0 && self::done(&t), "the end is reported once");
            kani::cover!(true, "end");
        }
        Poll::Ready(None) => {
            assert!(done);
            kani::cover!(true, "after the end");
        }
    }
}
