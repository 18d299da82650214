//! Verification stand-in for `std`: the real `std` with `io::Error` replaced by a plain value that
//! keeps the `ErrorKind` and forgets the payload, and `VecDeque` by a small loop-free sequence. (The real type owns a type-erased, heap-allocated
//! payload whose drop glue no bounded model checker can look through.)
pub use ::std::*;

#[path = "vec_deque.rs"]
mod vec_deque_;

pub mod io {
    pub use ::std::io::{Cursor, ErrorKind, IoSlice, IoSliceMut, SeekFrom};
    use ::std::fmt;

    #[derive(Clone, Copy, PartialEq, Eq)]
    pub struct Error {
        kind: ErrorKind,
    }
    pub type Result<T> = ::std::result::Result<T, Error>;

    impl Error {
        pub fn new<E>(kind: ErrorKind, e: E) -> Error {
            ::std::mem::forget(e);
            Error { kind }
        }
        pub fn other<E>(e: E) -> Error {
            Error::new(ErrorKind::Other, e)
        }
        pub fn kind(&self) -> ErrorKind {
            self.kind
        }
    }
    impl From<ErrorKind> for Error {
        fn from(kind: ErrorKind) -> Error {
            Error { kind }
        }
    }
    impl fmt::Debug for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("io::Error")
        }
    }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("io::Error")
        }
    }
    impl ::std::error::Error for Error {}
}

pub mod collections {
    pub use ::std::collections::*;
    pub use super::vec_deque_::VecDeque;
    pub mod vec_deque {
        pub use crate::vec_deque_::*;
    }
}
