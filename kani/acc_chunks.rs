// Appended to chunks.rs.
use super::*;
pub(crate) fn count(c: &Chunks) -> usize { c.seq.len() }
pub(crate) fn total(c: &Chunks) -> usize { c.len }
/// The unread bytes of the chunk at position `i`.
pub(crate) fn unread(c: &Chunks, i: usize) -> &[u8] { c.seq[i].as_ref() }
/// Pretend that `n` bytes are buffered (only their number is ever looked at).
pub(crate) fn pretend(c: &mut Chunks, n: usize) { c.len += n }
