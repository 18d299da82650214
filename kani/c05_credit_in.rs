// C05 (attached to connection.rs): which inbound frames change a stream's send credit.
use super::verif_acc::*;
use super::*;
use stream::State;

#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c05_credit_granted() {
    let s = scene(1, false);
    if s.known && !s.has(fra::RST) && !s.has(fra::SYN) {
        let sum = s.pre.send as u64 + s.len as u64;
        if sum > u32::MAX as u64 {
            assert!(s.out == Out::Bye && s.code == 1 && s.post.send == s.pre.send, "credit never overflows");
            kani::cover!(true, "overflow");
        } else {
            assert!(s.out == Out::Nothing && s.post.send as u64 == sum, "exactly the granted credit is added");
            kani::cover!(s.len > 0 && s.has(fra::ACK), "credit");
        }
    } else {
        assert!(s.post.send == s.pre.send, "nothing else changes the send credit");
        kani::cover!(!s.known, "other stream");
    }
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c05_credit_untouched() {
    let s = if kani::any() { scene(2, false) } else { scene(3, false) };
    assert!(s.post.send == s.pre.send);
}
on_data!(c05_credit_data, c05_credit_data_syn, c05_credit_data_rest, false, |s: Scene| {
    assert!(s.post.send == s.pre.send, "data frames do not change the send credit");
});
