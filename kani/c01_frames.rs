// C01 (attached to frame.rs): what the constructors of frames put into header and body.
use super::verif_acc::*;
use super::*;
use vsupport::*;

const DATA: u64 = 0;
const WINDOW_UPDATE: u64 = 1;
const PING: u64 = 2;
const GO_AWAY: u64 = 3;
fn same(a: [u64; 5], b: [u64; 5]) -> bool {
    a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3] && a[4] == b[4]
}

#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c01_frames() {
    let (id, x): (u32, u32) = (kani::any(), kani::any());
    let sid = StreamId::new(id);
    let ack: bool = kani::any();
    let n = |f: [u64; 5], want: [u64; 5]| assert!(same(f, want));
    n(numbers(&Frame::window_update(sid, x)), [WINDOW_UPDATE, 0, id as u64, x as u64, 0]);
    n(numbers(&Frame::close_stream(sid, ack)), [DATA, 4 + 2 * ack as u64, id as u64, 0, 0]);
    n(numbers(&Frame::ping(x)), [PING, 1, 0, x as u64, 0]);
    n(numbers(&Frame::term()), [GO_AWAY, 0, 0, 0, 0]);
    n(numbers(&Frame::protocol_error()), [GO_AWAY, 0, 0, 1, 0]);
    n(numbers(&Frame::internal_error()), [GO_AWAY, 0, 0, 2, 0]);
    assert!(Frame::ping(x).id() == x);
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c01_frames_data() {
    let id: u32 = kani::any();
    let len: usize = kani::any();
    kani::assume(len < 1 << 40);
    let body = opaque_vec(len);
    match Frame::data(StreamId::new(id), body) {
        Ok(f) => {
            assert!(len <= u32::MAX as usize);
            assert!(same(numbers(&f), [DATA, 0, id as u64, len as u64, len as u64]));
            assert!(f.body_len() as usize == len);
            kani::cover!(len == u32::MAX as usize, "the longest");
            std::mem::forget(f);
        }
        Err(e) => {
            assert!(len > u32::MAX as usize, "too long for a frame");
            kani::cover!(true, "too long");
            std::mem::forget(e);
        }
    }
}
/// The casts between the types of frames keep header and body.
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(alloc::fmt::format, vsupport::no_fmt)]
fn c01_frames_cast() {
    let f = mk(any_header(), opaque_vec(kani::any::<u16>() as usize));
    let want = numbers(&f);
    let got = match want[0] {
        DATA if kani::any() => {
            let f = f.into_data();
            let n = numbers(&f);
            assert!(same(n, want));
            let f: Frame<Either<Data, WindowUpdate>> = f.left();
            assert!(same(numbers(&f), want));
            Frame::<()>::from(f)
        }
        DATA => Frame::<()>::from(f.into_data()),
        WINDOW_UPDATE => {
            let f: Frame<Either<Data, WindowUpdate>> = f.into_window_update().right();
            assert!(same(numbers(&f), want));
            Frame::<()>::from(f)
        }
        PING => Frame::<()>::from(f.into_ping()),
        _ => f,
    };
    assert!(same(numbers(&got), want));
    std::mem::forget(got);
}
