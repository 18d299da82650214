//! Verification stand-in for the `futures` facade: the traits and the adaptors that are plain
//! forwarding (`poll_next_unpin`, `Fuse`, `Either`, `ready!` ...) are restated here word for word;
//! `channel::mpsc` and `stream::SelectAll` are small sequential implementations of their documented
//! contracts. Everything is over the `std-shim` `io::Error`.
#[macro_export]
macro_rules! ready {
    ($e:expr $(,)?) => {
        match $e {
            ::core::task::Poll::Ready(t) => t,
            ::core::task::Poll::Pending => return ::core::task::Poll::Pending,
        }
    };
}
#[macro_export]
macro_rules! pin_mut {
    ($($x:ident),* $(,)?) => { $( let mut $x = $x; #[allow(unused_mut)] let mut $x = unsafe { ::core::pin::Pin::new_unchecked(&mut $x) }; )* }
}

pub use future::{Future, FutureExt};
pub use io::{AsyncRead, AsyncWrite};
pub use sink::{Sink, SinkExt};
pub use stream::{Stream, StreamExt};

pub mod prelude {
    pub use crate::future::{self, Future, FutureExt as _};
    pub use crate::io::{AsyncRead, AsyncWrite};
    pub use crate::sink::{self, Sink, SinkExt as _};
    pub use crate::stream::{self, Stream, StreamExt as _};
}

pub mod task {
    pub use std::task::{Context, Poll, Waker};
}

pub mod future {
    pub use std::future::{poll_fn, ready, Future, Ready};
    use std::pin::Pin;
    use std::task::{Context, Poll};
    #[derive(Debug, Clone)]
    pub enum Either<A, B> {
        Left(A),
        Right(B),
    }
    pub trait FutureExt: Future {
        fn poll_unpin(&mut self, cx: &mut Context<'_>) -> Poll<Self::Output>
        where
            Self: Unpin,
        {
            Pin::new(self).poll(cx)
        }
    }
    impl<F: Future + ?Sized> FutureExt for F {}
}

pub mod io {
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use std_shim::io::Result;
    pub trait AsyncRead {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>>;
    }
    pub trait AsyncWrite {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>>;
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>>;
        fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>>;
    }
    impl<T: AsyncRead + Unpin + ?Sized> AsyncRead for &mut T {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
            Pin::new(&mut **self).poll_read(cx, buf)
        }
    }
    impl<T: AsyncWrite + Unpin + ?Sized> AsyncWrite for &mut T {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
            Pin::new(&mut **self).poll_write(cx, buf)
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
            Pin::new(&mut **self).poll_flush(cx)
        }
        fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
            Pin::new(&mut **self).poll_close(cx)
        }
    }
}

pub mod sink {
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub trait Sink<Item> {
        type Error;
        fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>>;
        fn start_send(self: Pin<&mut Self>, item: Item) -> Result<(), Self::Error>;
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>>;
        fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>>;
    }
    impl<S: ?Sized + Sink<Item> + Unpin, Item> Sink<Item> for &mut S {
        type Error = S::Error;
        fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
            Pin::new(&mut **self).poll_ready(cx)
        }
        fn start_send(mut self: Pin<&mut Self>, item: Item) -> Result<(), Self::Error> {
            Pin::new(&mut **self).start_send(item)
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
            Pin::new(&mut **self).poll_flush(cx)
        }
        fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
            Pin::new(&mut **self).poll_close(cx)
        }
    }
    pub trait SinkExt<Item>: Sink<Item> {
        fn poll_ready_unpin(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>>
        where
            Self: Unpin,
        {
            Pin::new(self).poll_ready(cx)
        }
        fn start_send_unpin(&mut self, item: Item) -> Result<(), Self::Error>
        where
            Self: Unpin,
        {
            Pin::new(self).start_send(item)
        }
        fn poll_flush_unpin(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>>
        where
            Self: Unpin,
        {
            Pin::new(self).poll_flush(cx)
        }
        fn poll_close_unpin(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>>
        where
            Self: Unpin,
        {
            Pin::new(self).poll_close(cx)
        }
    }
    impl<T: ?Sized, Item> SinkExt<Item> for T where T: Sink<Item> {}
}

pub mod stream {
    #[path = "select_all.rs"]
    mod sel_all;
    pub use sel_all::{select_all, SelectAll};
    use crate::sink::Sink;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use vsupport::{sock, Delivered, Recorded};

    pub trait Stream {
        type Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>;
        fn size_hint(&self) -> (usize, Option<usize>) {
            (0, None)
        }
    }
    impl<S: ?Sized + Stream + Unpin> Stream for &mut S {
        type Item = S::Item;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            Pin::new(&mut **self).poll_next(cx)
        }
    }
    pub trait FusedStream: Stream {
        fn is_terminated(&self) -> bool;
    }
    pub trait StreamExt: Stream {
        fn poll_next_unpin(&mut self, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>
        where
            Self: Unpin,
        {
            Pin::new(self).poll_next(cx)
        }
        fn fuse(self) -> Fuse<Self>
        where
            Self: Sized,
        {
            Fuse { stream: self, done: false }
        }
    }
    impl<T: ?Sized + Stream> StreamExt for T {}

    /// As in `futures_util::stream::Fuse`: once the stream has yielded `None`, every further poll is
    /// `Ready(None)`; the sink half is forwarded unchanged.
    #[derive(Debug)]
    pub struct Fuse<St> {
        stream: St,
        done: bool,
    }
    impl<St> Fuse<St> {
        pub fn is_done(&self) -> bool {
            self.done
        }
        pub fn get_ref(&self) -> &St {
            &self.stream
        }
        pub fn get_mut(&mut self) -> &mut St {
            &mut self.stream
        }
        pub fn into_inner(self) -> St {
            self.stream
        }
    }
    impl<St: Stream + Unpin> Stream for Fuse<St>
    where
        St::Item: Delivered,
    {
        type Item = St::Item;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<St::Item>> {
            if self.done {
                return Poll::Ready(None);
            }
            let item = if sock().on {
                contract::next::<St::Item>()
            } else {
                Pin::new(&mut self.stream).poll_next(cx)
            };
            let item = crate::ready!(item);
            if item.is_none() {
                self.done = true;
            }
            Poll::Ready(item)
        }
    }
    impl<St: Stream + Unpin> FusedStream for Fuse<St>
    where
        St::Item: Delivered,
    {
        fn is_terminated(&self) -> bool {
            self.done
        }
    }
    impl<S: Sink<Item> + Unpin, Item: Recorded> Sink<Item> for Fuse<S>
    where
        S::Error: From<std::io::ErrorKind>,
    {
        type Error = S::Error;
        fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
            if sock().on {
                return contract::ready();
            }
            Pin::new(&mut self.stream).poll_ready(cx)
        }
        fn start_send(mut self: Pin<&mut Self>, item: Item) -> Result<(), S::Error> {
            if sock().on {
                contract::send(&item);
                std::mem::forget(item);
                return Ok(());
            }
            Pin::new(&mut self.stream).start_send(item)
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
            if sock().on {
                return contract::flush();
            }
            Pin::new(&mut self.stream).poll_flush(cx)
        }
        fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
            if sock().on {
                return contract::close();
            }
            Pin::new(&mut self.stream).poll_close(cx)
        }
    }
    /// The contract of `frame::Io` (which C02 and C03 prove of the real one), switched on by the
    /// harnesses that verify its callers: a caller is checked against this, not against the body.
    mod contract {
        use super::*;
        type R<E> = Poll<Result<(), E>>;
        fn yes() -> bool {
            #[cfg(kani)]
            return kani::any();
            #[cfg(not(kani))]
            false
        }
        fn fail<E: From<std::io::ErrorKind>>() -> R<E> {
            sock().failed = true;
            Poll::Ready(Err(std::io::ErrorKind::ConnectionReset.into()))
        }
        pub fn ready<E: From<std::io::ErrorKind>>() -> R<E> {
            let s = sock();
            if s.failed {
                return fail();
            }
            if yes() {
                return fail();
            }
            // Once ready it stays so until something is sent.
            if s.ready || (s.ready_budget > 0 && yes()) {
                if !s.ready {
                    s.ready_budget -= 1;
                }
                s.ready = true;
                s.write_pending = false;
                return Poll::Ready(Ok(()));
            }
            s.write_pending = true;
            Poll::Pending
        }
        pub fn send<I: Recorded>(item: &I) {
            let s = sock();
            assert!(!s.failed, "nothing is sent on a socket that failed");
            assert!(s.ready, "a frame is sent only when the socket is ready for it");
            assert!(!s.closed, "nothing is sent after the socket was closed");
            s.ready = false;
            s.dirty = true;
            if s.sent < 8 {
                s.log[s.sent as usize] = item.record();
            }
            s.sent += 1;
        }
        pub fn flush<E: From<std::io::ErrorKind>>() -> R<E> {
            let s = sock();
            if s.failed || yes() {
                return fail();
            }
            s.dirty = false;
            s.flush_pending = yes();
            if s.flush_pending {
                return Poll::Pending;
            }
            Poll::Ready(Ok(()))
        }
        pub fn close<E: From<std::io::ErrorKind>>() -> R<E> {
            let s = sock();
            s.close_calls += 1;
            if s.failed || yes() {
                return fail();
            }
            if yes() {
                s.write_pending = true;
                return Poll::Pending;
            }
            s.closed = true;
            Poll::Ready(Ok(()))
        }
        pub fn next<I: Delivered>() -> Poll<Option<I>> {
            let s = sock();
            if s.item_budget == 0 || yes() {
                s.read_pending = true;
                return Poll::Pending;
            }
            s.item_budget -= 1;
            s.read_pending = false;
            let x = I::any();
            match &x {
                Some(i) => {
                    s.items += 1;
                    s.item = i.seen();
                }
                None => s.ended = true,
            }
            Poll::Ready(x)
        }
    }
}

pub mod channel {
    pub mod mpsc;
    pub mod oneshot {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub struct Canceled;
    }
}
