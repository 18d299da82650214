// C01 (attached to frame/header.rs): the 12-byte header codec.
use super::*;

/// The layout of the yamux specification, restated.
fn spec(version: u8, ty: u8, flags: u16, id: u32, len: u32) -> [u8; 12] {
    [
        version, ty,
        (flags >> 8) as u8, flags as u8,
        (id >> 24) as u8, (id >> 16) as u8, (id >> 8) as u8, id as u8,
        (len >> 24) as u8, (len >> 16) as u8, (len >> 8) as u8, len as u8,
    ]
}
fn ty(t: Tag) -> u8 {
    match t {
        Tag::Data => 0,
        Tag::WindowUpdate => 1,
        Tag::Ping => 2,
        Tag::GoAway => 3,
    }
}

/// `decode` accepts exactly version 0 with types 0..=3, and reads every field at its place.
#[kani::proof]
#[kani::unwind(14)]
fn c01_decode_total() {
    let b: [u8; HEADER_SIZE] = kani::any();
    match decode(&b) {
        Ok(h) => {
            assert!(b[0] == 0 && b[1] < 4);
            assert!(ty(h.tag()) == b[1]);
            assert!(spec(0, ty(h.tag()), h.flags().val(), h.stream_id().val(), h.len().val()) == b);
            assert!(encode(&h) == b);
            kani::cover!(true, "accepted");
        }
        Err(HeaderDecodeError::Version(v)) => {
            assert!(b[0] != 0 && v == b[0]);
            kani::cover!(true, "bad version");
        }
        Err(HeaderDecodeError::Type(t)) => {
            assert!(b[0] == 0 && b[1] >= 4 && t == b[1]);
            kani::cover!(true, "bad type");
        }
    }
}

/// Every header is encoded in the layout of the specification and decoded to itself.
#[kani::proof]
#[kani::unwind(14)]
fn c01_encode_layout() {
    let (id, len): (u32, u32) = (kani::any(), kani::any());
    let flags: u16 = kani::any();
    let t: u8 = kani::any();
    kani::assume(t < 4);
    let h = match decode(&spec(0, t, flags, id, len)) {
        Ok(h) => h,
        Err(_) => panic!("version 0 and a known type are accepted"),
    };
    assert!(ty(h.tag()) == t && h.flags().val() == flags && h.stream_id().val() == id && h.len().val() == len);
    assert!(encode(&h) == spec(0, t, flags, id, len));
}

/// Every constructor and flag setter produces the header that the specification prescribes.
#[kani::proof]
#[kani::unwind(14)]
fn c01_constructors() {
    let (id, len): (u32, u32) = (kani::any(), kani::any());
    let sid = StreamId::new(id);
    let (s, a, f, r): (bool, bool, bool, bool) = (kani::any(), kani::any(), kani::any(), kani::any());
    let mut flags = 0u16;
    let mut d = Header::data(sid, len);
    let mut w = Header::window_update(sid, len);
    if s { d.syn(); w.syn(); flags |= 1 }
    if a { d.ack(); w.ack(); flags |= 2 }
    if f { d.fin(); w.fin(); flags |= 4 }
    if r { d.rst(); w.rst(); flags |= 8 }
    assert!(encode(&d) == spec(0, 0, flags, id, len));
    assert!(encode(&w) == spec(0, 1, flags, id, len));
    assert!(w.credit() == len);
    let mut p = Header::ping(len);
    let mut flags = 0u16;
    if s { p.syn(); flags |= 1 }
    if a { p.ack(); flags |= 2 }
    assert!(encode(&p) == spec(0, 2, flags, 0, len));
    assert!(p.id() == len);
    assert!(encode(&Header::term()) == spec(0, 3, 0, 0, 0));
    assert!(encode(&Header::protocol_error()) == spec(0, 3, 0, 0, 1));
    assert!(encode(&Header::internal_error()) == spec(0, 3, 0, 0, 2));
    let bits: u16 = kani::any();
    let q: u16 = kani::any();
    assert!(Flags(bits).contains(Flags(q)) == (bits & q == q));
    assert!(sid.is_server() == (id & 1 == 0) && sid.is_client() == (id & 1 == 1) && sid.is_session() == (id == 0));
}

/// The casts between header types keep every field.
#[kani::proof]
#[kani::unwind(14)]
fn c01_casts() {
    let (id, len): (u32, u32) = (kani::any(), kani::any());
    let sid = StreamId::new(id);
    let mut d = Header::data(sid, len);
    if kani::any() { d.syn() }
    if kani::any() { d.ack() }
    if kani::any() { d.fin() }
    if kani::any() { d.rst() }
    let want = encode(&d);
    let e: Header<Either<Data, WindowUpdate>> = d.left();
    assert!(encode(&e) == want);
    let u: Header<()> = e.into();
    assert!(encode(&u) == want);
    assert!(encode(&u.into_data()) == want);
    let w = Header::window_update(sid, len);
    let want = encode(&w);
    let e: Header<Either<Data, WindowUpdate>> = w.right();
    assert!(encode(&e) == want);
    let u: Header<()> = e.into();
    assert!(encode(&u) == want);
    assert!(encode(&u.into_window_update()) == want);
    let p = Header::ping(len);
    let want = encode(&p);
    let u: Header<()> = p.into();
    assert!(encode(&u) == want);
    assert!(encode(&u.into_ping()) == want);
}
