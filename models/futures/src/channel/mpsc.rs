//! Contract of the real bounded `mpsc` channel, sequentially:
//! * messages are delivered in the order in which they were sent, each once;
//! * after the receiver was closed (or dropped) `poll_ready` and `start_send` fail, `is_closed()` is
//!   true, and messages already queued can still be received;
//! * `poll_ready` is `Pending` while the sender is parked (whether a send parks the sender depends
//!   on the fill level; here every choice is possible) and registers the task, which is woken when
//!   the receiver takes a message or is closed;
//! * the receiver ends (`Ready(None)`) when the queue is empty and it was closed or every sender
//!   was dropped; otherwise it is `Pending`, registers the task, and that task is woken by a send
//!   and by the drop of the last sender.
use crate::stream::Stream;
use crate::sink::Sink;
use std::cell::UnsafeCell;
use std::fmt;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

/// A queue of at most three messages; loop-free on purpose.
pub struct Chan<T> {
    pub q0: Option<T>,
    pub q1: Option<T>,
    pub q2: Option<T>,
    pub closed: bool,
    pub senders: usize,
    pub parked: bool,
    pub recv_task: Option<Waker>,
    pub send_task: Option<Waker>,
}
impl<T> Chan<T> {
    /// Append a message.
    pub fn put(&mut self, msg: T) {
        if self.q0.is_none() {
            self.q0 = Some(msg);
        } else if self.q1.is_none() {
            self.q1 = Some(msg);
        } else if self.q2.is_none() {
            self.q2 = Some(msg);
        } else {
            panic!("verification model: mpsc capacity exceeded");
        }
    }
    /// The number of queued messages.
    pub fn n(&self) -> usize {
        self.q0.is_some() as usize + self.q1.is_some() as usize + self.q2.is_some() as usize
    }
}
pub struct Shared<T>(UnsafeCell<Chan<T>>);
unsafe impl<T: Send> Send for Shared<T> {}
unsafe impl<T: Send> Sync for Shared<T> {}

pub struct Sender<T> {
    inner: Arc<Shared<T>>,
}
pub struct Receiver<T> {
    inner: Arc<Shared<T>>,
}
#[derive(Clone, PartialEq, Eq)]
pub struct SendError {
    disconnected: bool,
}
pub struct TrySendError<T> {
    err: SendError,
    val: T,
}
impl SendError {
    pub fn is_full(&self) -> bool {
        !self.disconnected
    }
    pub fn is_disconnected(&self) -> bool {
        self.disconnected
    }
}
impl<T> TrySendError<T> {
    pub fn is_full(&self) -> bool {
        self.err.is_full()
    }
    pub fn is_disconnected(&self) -> bool {
        self.err.is_disconnected()
    }
    pub fn into_inner(self) -> T {
        self.val
    }
    pub fn into_send_error(self) -> SendError {
        self.err
    }
}
impl fmt::Debug for SendError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SendError")
    }
}
impl fmt::Display for SendError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("send failed")
    }
}
impl std::error::Error for SendError {}
impl<T> fmt::Debug for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("TrySendError")
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Sender")
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Receiver")
    }
}

pub fn channel<T>(_buffer: usize) -> (Sender<T>, Receiver<T>) {
    let inner = Arc::new(Shared(UnsafeCell::new(Chan {
        q0: None,
        q1: None,
        q2: None,
        closed: false,
        senders: 1,
        parked: false,
        recv_task: None,
        send_task: None,
    })));
    (Sender { inner: inner.clone() }, Receiver { inner })
}

#[cfg(kani)]
fn may_park() -> bool {
    kani::any()
}
#[cfg(not(kani))]
fn may_park() -> bool {
    false
}

impl<T> Sender<T> {
    /// Harness access to the channel.
    #[allow(clippy::mut_from_ref)]
    pub fn chan(&self) -> &mut Chan<T> {
        unsafe { &mut *self.inner.0.get() }
    }
    pub fn is_closed(&self) -> bool {
        self.chan().closed
    }
    pub fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), SendError>> {
        let c = self.chan();
        if c.closed {
            return Poll::Ready(Err(SendError { disconnected: true }));
        }
        if c.parked {
            c.send_task = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    pub fn start_send(&mut self, msg: T) -> Result<(), SendError> {
        self.try_send(msg).map_err(|e| e.err)
    }
    pub fn try_send(&mut self, msg: T) -> Result<(), TrySendError<T>> {
        let c = self.chan();
        if c.closed {
            return Err(TrySendError { err: SendError { disconnected: true }, val: msg });
        }
        if c.parked {
            return Err(TrySendError { err: SendError { disconnected: false }, val: msg });
        }
        c.put(msg);
        c.parked = may_park();
        if let Some(w) = c.recv_task.take() {
            w.wake()
        }
        Ok(())
    }
    pub fn close_channel(&mut self) {
        let c = self.chan();
        c.closed = true;
        if let Some(w) = c.recv_task.take() {
            w.wake()
        }
    }
    pub fn disconnect(&mut self) {
        self.close_channel()
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.chan().senders += 1;
        Sender { inner: self.inner.clone() }
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        let c = self.chan();
        c.senders -= 1;
        if c.senders == 0 {
            if let Some(w) = c.recv_task.take() {
                w.wake()
            }
        }
    }
}
impl<T> Sink<T> for Sender<T> {
    type Error = SendError;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SendError>> {
        Sender::poll_ready(&mut *self, cx)
    }
    fn start_send(mut self: Pin<&mut Self>, msg: T) -> Result<(), SendError> {
        Sender::start_send(&mut *self, msg)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SendError>> {
        match Sender::poll_ready(&mut *self, cx) {
            Poll::Ready(Err(_)) => Poll::Ready(Ok(())),
            r => r,
        }
    }
    fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), SendError>> {
        self.disconnect();
        Poll::Ready(Ok(()))
    }
}

impl<T> Receiver<T> {
    /// Harness access to the channel.
    #[allow(clippy::mut_from_ref)]
    pub fn chan(&self) -> &mut Chan<T> {
        unsafe { &mut *self.inner.0.get() }
    }
    pub fn close(&mut self) {
        let c = self.chan();
        c.closed = true;
        c.parked = false;
        if let Some(w) = c.send_task.take() {
            w.wake()
        }
    }
    fn take(&mut self) -> Option<T> {
        let c = self.chan();
        if c.q0.is_none() {
            return None;
        }
        let m = c.q0.take();
        c.q0 = c.q1.take();
        c.q1 = c.q2.take();
        c.parked = false;
        if let Some(w) = c.send_task.take() {
            w.wake()
        }
        m
    }
    pub fn try_next(&mut self) -> Result<Option<T>, TryRecvError> {
        match self.take() {
            Some(m) => Ok(Some(m)),
            None => {
                let c = self.chan();
                if c.closed || c.senders == 0 {
                    Ok(None)
                } else {
                    Err(TryRecvError { _priv: () })
                }
            }
        }
    }
}
#[derive(Debug)]
pub struct TryRecvError {
    _priv: (),
}
impl<T> Stream for Receiver<T> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        if let Some(m) = self.take() {
            return Poll::Ready(Some(m));
        }
        let c = self.chan();
        if c.closed || c.senders == 0 {
            return Poll::Ready(None);
        }
        c.recv_task = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.close();
        let c = self.chan();
        c.q0 = None;
        c.q1 = None;
        c.q2 = None;
    }
}
