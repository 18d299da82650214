//@include base_errors.rs
// Shared by the streams and the connection: the round trip time, and the windows handed out.
#[verifier::external_body]
pub struct Counter { x: u8 }
impl Clone for Counter {
    #[verifier::external_body]
    fn clone(&self) -> (r: Counter) ensures r == *self { unimplemented!() }
}
// The queue of commands to the connection. queued: all that was ever put into it.
pub mod mpsc {
    use super::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { x: T }
    #[verifier::external_body]
    pub fn channel<T>(n: usize) -> (r: (Sender<T>, Receiver<T>))
        ensures r.0.queued() == Seq::<T>::empty(), !r.0.closed() { unimplemented!() }
    pub struct SendError { pub x: u8 }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Sender<T> { x: T }
    impl<T> Sender<T> {
        pub uninterp spec fn queued(self) -> Seq<T>;
        pub uninterp spec fn closed(self) -> bool;
        /// The last call of poll_ready was answered Pending: the task is woken when there is room.
        pub uninterp spec fn waited(self) -> bool;
        #[verifier::external_body]
        pub fn is_closed(&self) -> (r: bool) ensures r == self.closed() { unimplemented!() }
        #[verifier::external_body]
        pub fn poll_ready(&mut self, cx: &mut Context) -> (r: Poll<Result<(), SendError>>)
            ensures final(self).queued() == old(self).queued(), final(self).closed() == old(self).closed(), final(cx).waker == old(cx).waker, r is Pending ==> final(self).waited() { unimplemented!() }
        #[verifier::external_body]
        pub fn start_send(&mut self, t: T) -> (r: Result<(), SendError>)
            ensures final(self).closed() == old(self).closed(), final(self).queued() == if r is Ok { old(self).queued().push(t) } else { old(self).queued() } { unimplemented!() }
        #[verifier::external_body]
        pub fn poll_flush(&mut self, cx: &mut Context) -> (r: Poll<Result<(), SendError>>)
            ensures final(self).queued() == old(self).queued(), final(self).closed() == old(self).closed() { unimplemented!() }
    }
}

// ---- the crate's text: connection/stream/flow_control.rs ----
//@item connection/stream/flow_control.rs struct FlowController pub
impl FlowController {
    /// A window of `recv` bytes, a credit of `send`.
    spec fn fresh(self, recv: u32, send: u32) -> bool {
        self.receive_window == recv && self.max_receive_window == DEFAULT_CREDIT && self.send_window == send
    }
    // By its contract (decided under C07).
    #[verifier::external_body]
    fn next_window_update(&mut self, buffered: usize) -> (r: Option<u32>)
        ensures final(self).send_window == old(self).send_window { unimplemented!() }
//@fn connection/stream/flow_control.rs "FlowController" new
//@sig: fn new(receive_window: u32, send_window: u32, accumulated_max_stream_windows: Arc<Mutex<usize>>, rtt: Rtt, config: Arc<Config>) -> Self
//@as: fn new(receive_window: u32, send_window: u32, accumulated_max_stream_windows: Counter, rtt: Rtt, config: Config) -> (r: FlowController)
//@spec: ensures r.fresh(receive_window, send_window)
//@end
//@fn connection/stream/flow_control.rs "FlowController" send_window
//@sig: fn send_window(&self) -> u32
//@as: fn send_window(&self) -> (r: u32)
//@spec: ensures r == self.send_window
//@end
//@fn connection/stream/flow_control.rs "FlowController" consume_send_window
//@sig: fn consume_send_window(&mut self, i: u32) -> Result<(), ConnectionError>
//@as: fn consume_send_window(&mut self, i: u32) -> (r: Result<(), ConnectionError>)
//@spec:
    ensures
        i <= old(self).send_window ==> r is Ok && *final(self) == (FlowController { send_window: (old(self).send_window - i) as u32, ..*old(self) }),
        i > old(self).send_window ==> r is Err && *final(self) == *old(self),
//@end
//@fn connection/stream/flow_control.rs "FlowController" increase_send_window_by
//@sig: fn increase_send_window_by(&mut self, i: u32) -> Result<(), ConnectionError>
//@as: fn increase_send_window_by(&mut self, i: u32) -> (r: Result<(), ConnectionError>)
//@spec:
    ensures
        i + old(self).send_window <= u32::MAX ==> r is Ok && *final(self) == (FlowController { send_window: (old(self).send_window + i) as u32, ..*old(self) }),
        i + old(self).send_window > u32::MAX ==> r is Err && *final(self) == *old(self),
//@end
//@fn connection/stream/flow_control.rs "FlowController" consume_receive_window
//@sig: fn consume_receive_window(&mut self, i: u32) -> Result<(), ConnectionError>
//@as: fn consume_receive_window(&mut self, i: u32) -> (r: Result<(), ConnectionError>)
//@spec:
    ensures
        i <= old(self).receive_window ==> r is Ok && *final(self) == (FlowController { receive_window: (old(self).receive_window - i) as u32, ..*old(self) }),
        i > old(self).receive_window ==> r is Err && *final(self) == *old(self),
//@end
}

// ---- the crate's text: connection/stream.rs ----
#[derive(Copy, Clone, PartialEq, Eq)]
//@item connection/stream.rs enum State
pub assume_specification[<State as PartialEq>::eq](a: &State, b: &State) -> (r: bool) ensures r == (*a == *b);
#[derive(Copy, Clone, PartialEq, Eq)]
//@item connection/stream.rs enum Flag
pub assume_specification[<Flag as PartialEq>::eq](a: &Flag, b: &Flag) -> (r: bool) ensures r == (*a == *b);
//@item connection/stream.rs struct Stream
//@item connection/stream.rs struct Shared
//@item connection/stream.rs struct Packet

impl State {
    spec fn reads(self) -> bool { !(self is RecvClosed) && !(self is Closed) }
    spec fn writes(self) -> bool { !(self is SendClosed) && !(self is Closed) }
    /// The state after `next` was asked for.
    spec fn after(self, next: State) -> State {
        match (self, next) {
            (State::Closed, _) => State::Closed,
            (State::Open { .. }, n) => n,
            (s, State::Open { .. }) => s,
            (State::SendClosed, State::SendClosed) => State::SendClosed,
            (State::RecvClosed, State::RecvClosed) => State::RecvClosed,
            _ => State::Closed,
        }
    }
//@fn connection/stream.rs "State" can_read
//@sig: fn can_read(self) -> bool
//@as: fn can_read(self) -> (r: bool)
//@spec: ensures r == self.reads()
//@end
//@fn connection/stream.rs "State" can_write
//@sig: fn can_write(self) -> bool
//@as: fn can_write(self) -> (r: bool)
//@spec: ensures r == self.writes()
//@end
}
impl Shared {
    /// A stream as it begins.
    spec fn fresh(self, recv: u32, send: u32) -> bool {
        &&& self.state == State::Open { acknowledged: false }
        &&& self.flow_controller.fresh(recv, send)
        &&& self.buffer.wf() && self.buffer.view() == Seq::<u8>::empty()
        &&& self.reader is None && self.writer is None
    }
    /// Only the flow controller is not as it was.
    spec fn flow(self, o: Shared) -> bool { self == (Shared { flow_controller: self.flow_controller, ..o }) }
//@fn connection/stream.rs "Shared" new
//@sig: fn new(receive_window: u32, send_window: u32, accumulated_max_stream_windows: Arc<Mutex<usize>>, rtt: Rtt, config: Arc<Config>) -> Self
//@as: fn new(receive_window: u32, send_window: u32, accumulated_max_stream_windows: Counter, rtt: Rtt, config: Config) -> (r: Shared)
//@spec: ensures r.fresh(receive_window, send_window)
//@end
//@fn connection/stream.rs "Shared" is_pending_ack
//@sig: fn is_pending_ack(&self) -> bool
//@as: fn is_pending_ack(&self) -> (r: bool)
//@spec: ensures r == (self.state == State::Open { acknowledged: false })
//@end
//@fn connection/stream.rs "Shared" increase_send_window_by
//@sig: fn increase_send_window_by(&mut self, i: u32) -> Result<(), ConnectionError>
//@as: fn increase_send_window_by(&mut self, i: u32) -> (r: Result<(), ConnectionError>)
//@spec:
    ensures
        i + old(self).flow_controller.send_window <= u32::MAX ==> r is Ok && *final(self) == (Shared { flow_controller: FlowController { send_window: (old(self).flow_controller.send_window + i) as u32, ..old(self).flow_controller }, ..*old(self) }),
        i + old(self).flow_controller.send_window > u32::MAX ==> r is Err && *final(self) == *old(self),
//@end
//@fn connection/stream.rs "Shared" consume_receive_window
//@sig: fn consume_receive_window(&mut self, i: u32) -> Result<(), ConnectionError>
//@as: fn consume_receive_window(&mut self, i: u32) -> (r: Result<(), ConnectionError>)
//@spec:
    ensures
        i <= old(self).flow_controller.receive_window ==> r is Ok && *final(self) == (Shared { flow_controller: FlowController { receive_window: (old(self).flow_controller.receive_window - i) as u32, ..old(self).flow_controller }, ..*old(self) }),
        i > old(self).flow_controller.receive_window ==> r is Err && *final(self) == *old(self),
//@end
//@fn connection/stream.rs "Shared" state
//@sig: fn state(&self) -> State
//@as: fn state(&self) -> (r: State)
//@spec: ensures r == self.state
//@end
//@fn connection/stream.rs "Shared" update_state
//@sig: fn update_state(&mut self, cid: connection::Id, sid: StreamId, next: State) -> State
//@as: fn update_state(&mut self, cid: connection::Id, sid: StreamId, next: State) -> (r: State)
//@spec: ensures r == old(self).state, *final(self) == (Shared { state: old(self).state.after(next), ..*old(self) })
//@end
//@fn connection/stream.rs "Shared" next_window_update
//@sig: fn next_window_update(&mut self) -> Option<u32>
//@as: fn next_window_update(&mut self) -> (r: Option<u32>)
//@spec: requires old(self).buffer.wf()
    ensures *final(self) == (Shared { flow_controller: final(self).flow_controller, ..*old(self) }),
        final(self).flow_controller.send_window == old(self).flow_controller.send_window,
//@end
//@fn connection/stream.rs "Shared" send_window
//@sig: fn send_window(&self) -> u32
//@as: fn send_window(&self) -> (r: u32)
//@spec: ensures r == self.flow_controller.send_window
//@end
//@fn connection/stream.rs "Shared" consume_send_window
//@sig: fn consume_send_window(&mut self, i: u32) -> Result<(), ConnectionError>
//@as: fn consume_send_window(&mut self, i: u32) -> (r: Result<(), ConnectionError>)
//@spec:
    ensures
        *final(self) == (Shared { flow_controller: final(self).flow_controller, ..*old(self) }),
        i <= old(self).flow_controller.send_window ==> r is Ok && final(self).flow_controller == (FlowController { send_window: (old(self).flow_controller.send_window - i) as u32, ..old(self).flow_controller }),
        i > old(self).flow_controller.send_window ==> r is Err && final(self).flow_controller == old(self).flow_controller,
//@end
}
