// Appended to connection/stream/flow_control.rs: access to the private fields.
use super::*;
pub(crate) fn set(f: &mut FlowController, recv: u32, max: u32, send: u32) {
    f.receive_window = recv;
    f.max_receive_window = max;
    f.send_window = send;
}
pub(crate) fn set_last(f: &mut FlowController, at: Instant) {
    f.last_window_update = at;
}
pub(crate) fn recv(f: &FlowController) -> u32 { f.receive_window }
pub(crate) fn max(f: &FlowController) -> u32 { f.max_receive_window }
pub(crate) fn send(f: &FlowController) -> u32 { f.send_window }
pub(crate) fn last(f: &FlowController) -> Instant { f.last_window_update }
pub(crate) fn acc(f: &FlowController) -> &Arc<Mutex<usize>> { &f.accumulated_max_stream_windows }
pub(crate) fn rtt(f: &FlowController) -> &Rtt { &f.rtt }
