// Appended to tagged_stream.rs.
use super::*;
pub(crate) fn key<K: Copy, S>(t: &TaggedStream<K, S>) -> K { t.key }
pub(crate) fn done<K, S>(t: &TaggedStream<K, S>) -> bool { t.reported_none }
pub(crate) fn set_done<K, S>(t: &mut TaggedStream<K, S>) { t.reported_none = true }
pub(crate) fn inner<K, S>(t: &TaggedStream<K, S>) -> &S { &t.inner }
