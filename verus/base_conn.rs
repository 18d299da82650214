// ---- what the connection holds ----
/// A stream of the table, or one that was taken out of it (under the identifier it had).
#[derive(Copy, Clone)]
pub struct Handle { pub id: StreamId, pub gone: bool }
// IntMap<StreamId, Arc<Mutex<Shared>>>. What a handle refers to stays reachable when it leaves the table.
#[verifier::external_body]
pub struct Streams { x: u8 }
impl Streams {
    uninterp spec fn view(self) -> Map<StreamId, Shared>;
    uninterp spec fn gone(self) -> Map<StreamId, Shared>;
    /// What remove() took out, in order.
    uninterp spec fn removed(self) -> Seq<Shared>;
    spec fn at_spec(self, h: Handle) -> Shared { if h.gone { self.gone()[h.id] } else { self.view()[h.id] } }
    spec fn has(self, h: Handle) -> bool { if h.gone { self.gone().dom().contains(h.id) } else { self.view().dom().contains(h.id) } }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.view().len() { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self.view().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, id: &StreamId) -> (r: bool) ensures r == self.view().dom().contains(*id) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, id: &StreamId) -> (r: Option<Handle>)
        ensures r == (if self.view().dom().contains(*id) { Some(Handle { id: *id, gone: false }) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    fn get_mut(&self, id: &StreamId) -> (r: Option<Handle>)
        ensures r == (if self.view().dom().contains(*id) { Some(Handle { id: *id, gone: false }) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, id: StreamId, s: Shared)
        ensures final(self).view() == old(self).view().insert(id, s), final(self).gone() == old(self).gone(), final(self).removed() == old(self).removed() { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, id: &StreamId) -> (r: Option<Handle>)
        ensures r == (if old(self).view().dom().contains(*id) { Some(Handle { id: *id, gone: true }) } else { None }),
            final(self).view() == old(self).view().remove(*id),
            final(self).removed() == (if r is Some { old(self).removed().push(old(self).view()[*id]) } else { old(self).removed() }),
            final(self).gone() == (if r is Some { old(self).gone().insert(*id, old(self).view()[*id]) } else { old(self).gone() }) { unimplemented!() }
    // One step of drain(): any entry that is left.
    #[verifier::external_body]
    fn drain_next(&mut self) -> (r: Option<(StreamId, Handle)>)
        ensures final(self).removed() == old(self).removed(), match r {
            Some((id, h)) => h == (Handle { id, gone: true }) && old(self).view().dom().contains(id) && final(self).view() == old(self).view().remove(id)
                && final(self).gone() == old(self).gone().insert(id, old(self).view()[id]),
            None => old(self).view() =~= Map::empty() && final(self).view() == old(self).view() && final(self).gone() == old(self).gone(),
        } { unimplemented!() }
    // The keys, in the order of iter().
    #[verifier::external_body]
    fn keys(&self) -> (r: Vec<StreamId>)
        ensures r@.no_duplicates(), r@.to_set() =~= self.view().dom(), r@.len() == self.view().len() { unimplemented!() }
    #[verifier::external_body]
    fn entry(&self, id: &StreamId) -> (r: &Shared)
        requires self.view().dom().contains(*id), ensures *r == self.view()[*id] { unimplemented!() }
    // lock() of what a handle refers to.
    #[verifier::external_body]
    fn at(&mut self, h: &Handle) -> (r: &mut Shared)
        requires old(self).has(*h),
        ensures *r == old(self).at_spec(*h), final(self).removed() == old(self).removed(),
            final(self).view() == (if h.gone { old(self).view() } else { old(self).view().insert(h.id, *final(r)) }),
            final(self).gone() == (if h.gone { old(self).gone().insert(h.id, *final(r)) } else { old(self).gone() }) { unimplemented!() }
}
// The wakers that were woken.
#[verifier::external_body]
pub struct Woken { x: u8 }
impl Woken {
    pub uninterp spec fn has(self, w: Waker) -> bool;
    pub open spec fn logged(self, o: Woken) -> bool { forall|v: Waker| o.has(v) ==> #[trigger] self.has(v) }
    pub open spec fn woke(self, w: Option<Waker>) -> bool { w matches Some(x) ==> self.has(x) }
    #[verifier::external_body]
    pub fn wake(&mut self, w: Waker) ensures final(self).has(w), final(self).logged(*old(self)) { unimplemented!() }
}
// Rtt by its contract (C13).
#[verifier::external_body]
pub struct Rtt { x: u8 }
impl Rtt {
    /// The pings that were asked for, in order.
    pub uninterp spec fn pings(self) -> Seq<Frame>;
    pub uninterp spec fn awaiting(self) -> Option<u32>;
    #[verifier::external_body]
    fn next_ping(&mut self) -> (r: Option<Frame>)
        ensures match r {
            Some(f) => old(self).awaiting() is None && f.header.kind is Ping && f.header.flags == flags(true, false, false) && f.header.id == StreamId(0)
                && final(self).awaiting() == Some(f.header.len) && final(self).pings() == old(self).pings().push(f),
            None => *final(self) == *old(self),
        } { unimplemented!() }
    #[verifier::external_body]
    fn handle_pong(&mut self, id: u32) -> (r: Action)
        ensures final(self).pings() == old(self).pings(),
            r is None || goaway(r, 1),
            r is None <==> old(self).awaiting() == Some(id),
            r is None ==> final(self).awaiting() is None,
            !(r is None) ==> *final(self) == *old(self) { unimplemented!() }
}
impl Clone for Rtt {
    #[verifier::external_body]
    fn clone(&self) -> (r: Rtt) ensures r == *self { unimplemented!() }
}
spec fn goaway(a: Action, code: u32) -> bool {
    a matches Action::Terminate(f) && f.header == Header::new(Tag::GoAway, StreamId(0), code) && f.body@ == Seq::<u8>::empty()
}
