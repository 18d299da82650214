// Appended to frame.rs: frames as they come from the decoder.
use super::*;
use vsupport::*;
pub(crate) use super::io::verif_acc as ia;
/// A frame with this header and body.
pub(crate) fn mk<T>(header: Header<T>, body: Vec<u8>) -> Frame<T> {
    let mut f = Frame::new(header);
    f.body = body;
    f
}
pub(crate) fn body<T>(f: &Frame<T>) -> &[u8] {
    &f.body
}
/// Any frame of type `tag` that `Io` can deliver: the header is the decoding of any 12 bytes with
/// that type; a data frame carries as many (arbitrary) bytes as its header says, at most 1 MiB; no
/// other frame carries a body.
pub(crate) fn any_frame(tag: u8) -> Frame<()> {
    let mut b: [u8; header::HEADER_SIZE] = kani::any();
    b[0] = 0;
    b[1] = tag;
    let h = match header::decode(&b) {
        Ok(h) => h,
        Err(_) => panic!("a header with version 0 and a known type is decoded"),
    };
    let n = if tag == 0 { h.len().val() as usize } else { 0 };
    kani::assume(n <= crate::MIB);
    mk(h, if tag == 0 { opaque_vec(n) } else { Vec::new() })
}
pub(crate) const SYN: u16 = 1;
pub(crate) const ACK: u16 = 2;
pub(crate) const FIN: u16 = 4;
pub(crate) const RST: u16 = 8;
pub(crate) fn has(f: &Frame<()>, flag: u16) -> bool {
    f.header().flags().val() & flag != 0
}
/// Any header at all.
pub(crate) fn any_header() -> Header<()> {
    let mut b: [u8; header::HEADER_SIZE] = kani::any();
    b[0] = 0;
    kani::assume(b[1] < 4);
    match header::decode(&b) {
        Ok(h) => h,
        Err(_) => panic!("a header with version 0 and a known type is decoded"),
    }
}

/// A frame as five numbers: type, flags, stream, length field, length of the body.
pub(crate) fn numbers<T>(f: &Frame<T>) -> [u64; 5] {
    let h = &f.header;
    let t = match h.tag() {
        header::Tag::Data => 0,
        header::Tag::WindowUpdate => 1,
        header::Tag::Ping => 2,
        header::Tag::GoAway => 3,
    };
    [t, h.flags().val() as u64, h.stream_id().val() as u64, h.len().val() as u64, f.body.len() as u64]
}
impl<T> Recorded for Frame<T> {
    fn record(&self) -> [u64; 5] {
        numbers(self)
    }
}
/// What the reader delivers (C02): a frame, the end, or an error.
impl DeliveredFrame for Frame<()> {
    fn any() -> Self {
        any_frame(2)
    }
}
impl DeliveredError for FrameDecodeError {
    fn any() -> Self {
        if kani::any() {
            FrameDecodeError::Io(std::io::ErrorKind::UnexpectedEof.into())
        } else {
            FrameDecodeError::Header(header::HeaderDecodeError::Version(kani::any()))
        }
    }
}
