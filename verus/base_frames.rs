// ---- frames as C01 has them: what was given to the constructor and which flags were set since ----
pub mod header {
    use super::*;
    #[derive(Copy, Clone, PartialEq, Eq)]
    pub enum Tag { Data, WindowUpdate, Ping, GoAway }
    pub assume_specification[<Tag as PartialEq>::eq](a: &Tag, b: &Tag) -> (r: bool) ensures r == (*a == *b);
    #[derive(Copy, Clone)]
    pub enum Bit { Syn, Ack, Fin, Rst }
    pub const SYN: Bit = Bit::Syn;
    pub const ACK: Bit = Bit::Ack;
    pub const FIN: Bit = Bit::Fin;
    pub const RST: Bit = Bit::Rst;
    #[derive(Copy, Clone)]
    pub struct Flags { pub syn: bool, pub ack: bool, pub fin: bool, pub rst: bool }
    impl Flags {
        pub open spec fn has(self, b: Bit) -> bool { match b { Bit::Syn => self.syn, Bit::Ack => self.ack, Bit::Fin => self.fin, Bit::Rst => self.rst } }
        pub fn contains(self, b: Bit) -> (r: bool) ensures r == self.has(b) { match b { Bit::Syn => self.syn, Bit::Ack => self.ack, Bit::Fin => self.fin, Bit::Rst => self.rst } }
    }
    #[derive(Copy, Clone)]
    pub struct Len(pub u32);
    impl Len { pub fn val(self) -> (r: u32) ensures r == self.0 { self.0 } }
    pub struct Header { pub kind: Tag, pub id: StreamId, pub len: u32, pub flags: Flags }
    impl Header {
        pub open spec fn new(kind: Tag, id: StreamId, len: u32) -> Header { Header { kind, id, len, flags: flags(false, false, false) } }
        pub fn tag(&self) -> (r: Tag) ensures r == self.kind { self.kind }
        pub fn flags(&self) -> (r: Flags) ensures r == self.flags { self.flags }
        pub fn stream_id(&self) -> (r: StreamId) ensures r == self.id { self.id }
        pub fn len(&self) -> (r: Len) ensures r.0 == self.len { Len(self.len) }
        pub fn credit(&self) -> (r: u32) ensures r == self.len { self.len }
        pub fn id(&self) -> (r: u32) ensures r == self.len { self.len }
        pub fn syn(&mut self) ensures *final(self) == (Header { flags: Flags { syn: true, ..old(self).flags }, ..*old(self) }) { self.flags.syn = true; }
        pub fn ack(&mut self) ensures *final(self) == (Header { flags: Flags { ack: true, ..old(self).flags }, ..*old(self) }) { self.flags.ack = true; }
        pub fn fin(&mut self) ensures *final(self) == (Header { flags: Flags { fin: true, ..old(self).flags }, ..*old(self) }) { self.flags.fin = true; }
        pub fn rst(&mut self) ensures *final(self) == (Header { flags: Flags { rst: true, ..old(self).flags }, ..*old(self) }) { self.flags.rst = true; }
        pub fn data(id: StreamId, len: u32) -> (r: Header) ensures r == Header::new(Tag::Data, id, len) { Header { kind: Tag::Data, id, len, flags: no_flags() } }
        pub fn window_update(id: StreamId, len: u32) -> (r: Header) ensures r == Header::new(Tag::WindowUpdate, id, len) { Header { kind: Tag::WindowUpdate, id, len, flags: no_flags() } }
        pub fn ping(id: u32) -> (r: Header) ensures r == Header::new(Tag::Ping, StreamId(0), id) { Header { kind: Tag::Ping, id: StreamId(0), len: id, flags: no_flags() } }
    }
    fn no_flags() -> (r: Flags) ensures r == flags(false, false, false) { Flags { syn: false, ack: false, fin: false, rst: false } }
}
use header::{Header, Flags, Tag, ACK};
pub open spec fn flags(syn: bool, ack: bool, fin: bool) -> Flags { Flags { syn, ack, fin, rst: false } }
#[derive(Copy, Clone, PartialEq, Eq)]
//@item frame/header.rs struct StreamId pub
pub assume_specification[<StreamId as PartialEq>::eq](a: &StreamId, b: &StreamId) -> (r: bool) ensures r == (*a == *b);
pub struct Frame { pub header: Header, pub body: Vec<u8> }
impl Frame {
    /// What the reader hands out (C02).
    pub open spec fn read_ok(self) -> bool { self.body@.len() == if self.header.kind is Data { self.header.len as int } else { 0 } }
    pub fn new(header: Header) -> (r: Frame) ensures r.header == header, r.body@ == Seq::<u8>::empty() { Frame { header, body: Vec::new() } }
    pub fn window_update(id: StreamId, credit: u32) -> (r: Frame)
        ensures r.header == Header::new(Tag::WindowUpdate, id, credit), r.body@ == Seq::<u8>::empty()
    { Frame::new(Header::window_update(id, credit)) }
    #[verifier::external_body]
    pub fn data(id: StreamId, b: Vec<u8>) -> (r: Result<Frame, TryFromIntError>)
        ensures b@.len() <= u32::MAX ==> (r matches Ok(f) && f.header == Header::new(Tag::Data, id, b@.len() as u32) && f.body@ == b@)
    { unimplemented!() }
    pub fn close_stream(id: StreamId, ack: bool) -> (r: Frame)
        ensures r.header == (Header { flags: flags(false, ack, true), ..Header::new(Tag::Data, id, 0) }), r.body@ == Seq::<u8>::empty()
    { let mut h = Header::data(id, 0); h.fin(); if ack { h.ack() } Frame::new(h) }
    #[verifier::external_body]
    fn go_away(code: u32) -> (r: Frame) ensures r.header == Header::new(Tag::GoAway, StreamId(0), code), r.body@ == Seq::<u8>::empty() { unimplemented!() }
    pub fn term() -> (r: Frame) ensures r.header == Header::new(Tag::GoAway, StreamId(0), 0), r.body@ == Seq::<u8>::empty() { Frame::go_away(0) }
    pub fn protocol_error() -> (r: Frame) ensures r.header == Header::new(Tag::GoAway, StreamId(0), 1), r.body@ == Seq::<u8>::empty() { Frame::go_away(1) }
    pub fn internal_error() -> (r: Frame) ensures r.header == Header::new(Tag::GoAway, StreamId(0), 2), r.body@ == Seq::<u8>::empty() { Frame::go_away(2) }
    pub fn left(self) -> (r: Frame) ensures r == self { self }
    pub fn right(self) -> (r: Frame) ensures r == self { self }
    // The conversions assert the tag when debug assertions are on.
    pub fn into_data(self) -> (r: Frame) requires self.header.kind is Data ensures r == self { self }
    pub fn into_window_update(self) -> (r: Frame) requires self.header.kind is WindowUpdate ensures r == self { self }
    pub fn into_ping(self) -> (r: Frame) requires self.header.kind is Ping ensures r == self { self }
    pub fn header(&self) -> (r: &Header) ensures *r == self.header { &self.header }
    pub fn header_mut(&mut self) -> (r: &mut Header) ensures *r == old(self).header, *final(self) == (Frame { header: *final(r), ..*old(self) }) { &mut self.header }
    #[verifier::external_body]
    pub fn body(&self) -> (r: &[u8]) ensures r@ == self.body@ { unimplemented!() }
    pub fn body_len(&self) -> (r: u32) ensures self.body@.len() <= u32::MAX ==> r == self.body@.len() { self.body.len() as u32 }
    pub fn into_body(self) -> (r: Vec<u8>) ensures r@ == self.body@ { self.body }
    pub fn id(&self) -> (r: u32) ensures r == self.header.len { self.header.len }
}

