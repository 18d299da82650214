// ---- std ----
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExCursor<T>(std::io::Cursor<T>);
pub uninterp spec fn cursor_inner<T>(c: std::io::Cursor<T>) -> T;
pub uninterp spec fn cursor_pos<T>(c: std::io::Cursor<T>) -> u64;
pub assume_specification<T>[std::io::Cursor::<T>::new](x: T) -> (r: std::io::Cursor<T>)
    ensures cursor_inner(r) == x, cursor_pos(r) == 0;
pub assume_specification<T>[std::io::Cursor::<T>::get_ref](c: &std::io::Cursor<T>) -> (r: &T)
    ensures *r == cursor_inner(*c);
pub assume_specification<T>[std::io::Cursor::<T>::position](c: &std::io::Cursor<T>) -> (r: u64)
    ensures r == cursor_pos(*c);
pub assume_specification<T>[std::io::Cursor::<T>::set_position](c: &mut std::io::Cursor<T>, p: u64)
    ensures cursor_pos(*final(c)) == p, cursor_inner(*final(c)) == cursor_inner(*old(c));
pub assume_specification<T>[std::io::Cursor::<T>::into_inner](c: std::io::Cursor<T>) -> (r: T)
    ensures r == cursor_inner(c);
pub assume_specification<T, A: std::alloc::Allocator>[std::collections::VecDeque::<T, A>::front](v: &std::collections::VecDeque<T, A>) -> (r: Option<&T>)
    ensures match r { Some(x) => v@.len() > 0 && *x == v@[0], None => v@.len() == 0 };
pub assume_specification<T, A: std::alloc::Allocator>[std::collections::VecDeque::<T, A>::front_mut](v: &mut std::collections::VecDeque<T, A>) -> (r: Option<&mut T>)
    ensures match r {
        Some(x) => old(v)@.len() > 0 && *x == old(v)@[0] && final(v)@ == old(v)@.update(0, *final(x)),
        None => old(v)@.len() == 0 && final(v)@ == old(v)@,
    };
use std::collections::VecDeque;

// ---- the crate's text: chunks.rs ----
//@item chunks.rs struct Chunks
//@item chunks.rs struct Chunk

impl Chunk {
    spec fn bytes(self) -> Seq<u8> { cursor_inner(self.cursor)@ }
    spec fn pos(self) -> int { cursor_pos(self.cursor) as int }
    /// What was not read yet.
    spec fn rest(self) -> Seq<u8> { self.bytes().skip(self.pos()) }
    spec fn wf(self) -> bool { self.pos() <= self.bytes().len() <= u32::MAX }
}
spec fn total(s: Seq<Chunk>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { s[0].bytes().len() + total(s.drop_first()) } }
/// The bytes of a sequence of chunks that were not read yet.
spec fn unread(s: Seq<Chunk>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { s[0].rest() + unread(s.drop_first()) } }
spec fn all_wf(s: Seq<Chunk>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf()
    &&& forall|i: int| 0 < i < s.len() ==> (#[trigger] s[i]).pos() == 0
}
proof fn total_push(s: Seq<Chunk>, c: Chunk)
    ensures total(s.push(c)) == total(s) + c.bytes().len(), unread(s.push(c)) =~= unread(s) + c.rest()
    decreases s.len()
{
    if s.len() == 0 {
        assert(s.push(c).drop_first() =~= s);
        reveal_with_fuel(total, 2); reveal_with_fuel(unread, 2);
    } else {
        total_push(s.drop_first(), c);
        assert(s.push(c).drop_first() =~= s.drop_first().push(c));
    }
}
proof fn total_unread(s: Seq<Chunk>)
    requires all_wf(s)
    ensures unread(s).len() == total(s) - if s.len() == 0 { 0 } else { s[0].pos() }, total(s) >= 0
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_first().len() implies (#[trigger] s.drop_first()[i]).wf() && s.drop_first()[i].pos() == 0 by { assert(s[i + 1].wf()); }
        total_unread(s.drop_first());
        assert(s[0].wf());
    }
}
/// What changes when the first chunk does.
broadcast proof fn front_changed(s: Seq<Chunk>, c: Chunk)
    requires s.len() > 0
    ensures
        #![trigger s.update(0, c)]
        s.update(0, c).drop_first() =~= s.drop_first(),
        c.bytes() == s[0].bytes() ==> total(s.update(0, c)) == total(s),
        unread(s.update(0, c)) == c.rest() + unread(s.drop_first()),
        unread(s) == s[0].rest() + unread(s.drop_first()),
        all_wf(s) && c.wf() ==> all_wf(s.update(0, c)),
{
    assert(s.update(0, c).drop_first() =~= s.drop_first());
    if all_wf(s) && c.wf() {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s.update(0, c)[i]).wf() by { assert(s[i].wf()); }
        assert forall|i: int| 0 < i < s.len() implies (#[trigger] s.update(0, c)[i]).pos() == 0 by { assert(s[i].pos() == 0); }
    }
}
impl Chunks {
    spec fn wf(self) -> bool { self.len == total(self.seq@) && all_wf(self.seq@) }
    spec fn view(self) -> Seq<u8> { unread(self.seq@) }
}
impl Chunk {
//@fn chunks.rs "Chunk" len
//@sig: fn len(&self) -> usize
//@as: fn len(&self) -> (r: usize)
//@spec: requires self.wf() ensures r == self.rest().len(), r == self.bytes().len() - self.pos()
//@end
//@fn chunks.rs "Chunk" is_empty
//@sig: fn is_empty(&self) -> bool
//@as: fn is_empty(&self) -> (r: bool)
//@spec: requires self.wf() ensures r == (self.rest().len() == 0)
//@end
//@fn chunks.rs "Chunk" offset
//@sig: fn offset(&self) -> usize
//@as: fn offset(&self) -> (r: usize)
//@spec: requires self.wf() ensures r == self.pos()
//@end
//@fn chunks.rs "Chunk" advance
//@sig: fn advance(&mut self, amount: usize)
//@as: fn advance(&mut self, amount: usize)
//@spec:
    requires old(self).wf(), amount <= old(self).rest().len(),
    ensures final(self).wf(), final(self).bytes() == old(self).bytes(), final(self).pos() == old(self).pos() + amount,
        final(self).rest() =~= old(self).rest().skip(amount as int),
//@end
//@fn chunks.rs "Chunk" into_vec
//@sig: fn into_vec(self) -> Vec<u8>
//@as: fn into_vec(self) -> (r: Vec<u8>)
//@spec: ensures r@ == self.bytes()
//@end
}
impl Chunk {
//@fn chunks.rs "AsRef<[u8]> for Chunk" as_ref
//@sig: fn as_ref(&self) -> &[u8]
//@as: fn as_ref(&self) -> (r: &[u8])
//@spec: requires self.wf() ensures r@ == self.rest()
//@end
}
impl Chunks {
//@fn chunks.rs "Chunks" new
//@sig: fn new() -> Self
//@as: fn new() -> (r: Self)
//@spec: ensures r.wf(), r.view() == Seq::<u8>::empty()
//@end
//@fn chunks.rs "Chunks" len
//@sig: fn len(&self) -> usize
//@as: fn len(&self) -> (r: usize)
//@spec: requires self.wf() ensures r == self.view().len()
//@start: total_unread(self.seq@);
//@end
//@fn chunks.rs "Chunks" push
//@sig: fn push(&mut self, x: Vec<u8>)
//@as: fn push(&mut self, x: Vec<u8>)
//@spec:
    requires old(self).wf(), x@.len() <= u32::MAX, old(self).view().len() <= u32::MAX,
    ensures final(self).wf(), final(self).view() =~= old(self).view() + x@,
//@start: total_unread(self.seq@); assert forall|c: Chunk| c.bytes() == x@ && c.pos() == 0 implies
        #[trigger] total(self.seq@.push(c)) == total(self.seq@) + x@.len() && unread(self.seq@.push(c)) =~= unread(self.seq@) + x@ && all_wf(self.seq@.push(c))
        by { total_push(self.seq@, c); assert(c.rest() =~= x@); }
//@end
//@fn chunks.rs "Chunks" pop
//@sig: fn pop(&mut self) -> Option<Chunk>
//@as: fn pop(&mut self) -> (r: Option<Chunk>)
//@spec:
    requires old(self).wf(),
    ensures final(self).wf(), match r {
        Some(c) => c.wf() && old(self).seq@.len() > 0 && c == old(self).seq@[0] && final(self).seq@ == old(self).seq@.drop_first()
            && old(self).view() == c.rest() + final(self).view(),
        None => old(self).seq@.len() == 0 && final(self).seq@ == old(self).seq@ && old(self).view() =~= Seq::<u8>::empty(),
    },
//@start: total_unread(self.seq@); if self.seq@.len() > 0 {
        assert(self.seq@[0].wf());
        assert forall|i: int| 0 <= i < self.seq@.drop_first().len() implies (#[trigger] self.seq@.drop_first()[i]).wf() && self.seq@.drop_first()[i].pos() == 0 by { assert(self.seq@[i + 1].wf()); }
        total_unread(self.seq@.drop_first());
    }
//@end
//@fn chunks.rs "Chunks" front_mut
//@sig: fn front_mut(&mut self) -> Option<&mut Chunk>
//@as: fn front_mut(&mut self) -> (r: Option<&mut Chunk>)
//@spec:
    requires old(self).wf(),
    ensures final(self).len == old(self).len, match r {
        Some(c) => old(self).seq@.len() > 0 && *c == old(self).seq@[0] && final(self).seq@ == old(self).seq@.update(0, *final(c)),
        None => old(self).seq@.len() == 0 && final(self).seq@ == old(self).seq@,
    },
//@end
}

