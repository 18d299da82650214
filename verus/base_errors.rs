// ---- what a stream refers to ----
pub mod connection { use super::*; #[derive(Copy, Clone)] pub struct Id { pub x: u32 } }
//@item lib.rs const KIB pub
//@item lib.rs const DEFAULT_CREDIT pub
//@item lib.rs struct Config pub
impl Clone for Config {
    #[verifier::external_body]
    fn clone(&self) -> (r: Config) ensures r == *self { unimplemented!() }
}
#[derive(Debug)]
pub struct HeaderDecodeError { pub x: u8 }
#[derive(Debug)]
//@item frame/io.rs enum FrameDecodeError pub
#[derive(Debug)]
//@item error.rs enum ConnectionError pub
#[derive(Debug)]
pub struct TryFromIntError { pub x: u8 }
#[derive(Copy, Clone)]
pub struct Duration { pub x: u64 }
#[derive(Copy, Clone)]
pub struct Instant { pub x: u64 }
impl Instant {
    #[verifier::external_body]
    pub fn now() -> Instant { unimplemented!() }
}

//@item connection.rs enum StreamCommand pub
