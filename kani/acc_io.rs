// Appended to frame/io.rs: the reader's and writer's private states.
use super::*;
pub(crate) enum R {
    Init,
    Header(usize),
    Body(usize),
}
pub(crate) fn set_read_header<T>(io: &mut Io<T>, offset: usize, buffer: [u8; header::HEADER_SIZE]) {
    io.read_state = ReadState::Header { offset, buffer };
}
pub(crate) fn set_read_body<T>(io: &mut Io<T>, header: header::Header<()>, offset: usize, buffer: Vec<u8>) {
    io.read_state = ReadState::Body { header, offset, buffer };
}
pub(crate) fn read_state<T>(io: &Io<T>) -> R {
    match &io.read_state {
        ReadState::Init => R::Init,
        ReadState::Header { offset, .. } => R::Header(*offset),
        ReadState::Body { offset, .. } => R::Body(*offset),
    }
}
pub(crate) fn read_buf<T>(io: &Io<T>) -> &[u8] {
    match &io.read_state {
        ReadState::Init => &[],
        ReadState::Header { buffer, .. } => buffer,
        ReadState::Body { buffer, .. } => buffer,
    }
}
#[derive(Clone, Copy, PartialEq)]
pub(crate) enum W {
    Init,
    Header(usize),
    Body(usize),
    Poisoned,
}
pub(crate) fn set_write_init<T>(io: &mut Io<T>) {
    io.write_state = WriteState::Init;
}
pub(crate) fn set_write_poisoned<T>(io: &mut Io<T>) {
    io.write_state = WriteState::Poisoned;
}
pub(crate) fn set_write_header<T>(io: &mut Io<T>, offset: usize, header: [u8; header::HEADER_SIZE], buffer: Vec<u8>) {
    io.write_state = WriteState::Header { header, buffer, offset };
}
pub(crate) fn set_write_body<T>(io: &mut Io<T>, offset: usize, buffer: Vec<u8>) {
    io.write_state = WriteState::Body { buffer, offset };
}
pub(crate) fn write_state<T>(io: &Io<T>) -> W {
    match &io.write_state {
        WriteState::Init => W::Init,
        WriteState::Header { offset, .. } => W::Header(*offset),
        WriteState::Body { offset, .. } => W::Body(*offset),
        WriteState::Poisoned => W::Poisoned,
    }
}
/// What the writer still has to put on the socket: how many bytes, and the byte at position `i`.
pub(crate) fn unsent<T>(io: &Io<T>) -> usize {
    match &io.write_state {
        WriteState::Init | WriteState::Poisoned => 0,
        WriteState::Header { header, buffer, offset } => header.len() - offset + buffer.len(),
        WriteState::Body { buffer, offset } => buffer.len() - offset,
    }
}
pub(crate) fn unsent_at<T>(io: &Io<T>, i: usize) -> u8 {
    match &io.write_state {
        WriteState::Init | WriteState::Poisoned => 0,
        WriteState::Header { header, buffer, offset } => {
            let left = header.len() - offset;
            if i < left { header[*offset + i] } else { buffer[i - left] }
        }
        WriteState::Body { buffer, offset } => buffer[*offset + i],
    }
}
pub(crate) fn sock_of<T>(io: &mut Io<T>) -> &mut T {
    &mut io.io
}
pub(crate) fn sock_ref<T>(io: &Io<T>) -> &T {
    &io.io
}
