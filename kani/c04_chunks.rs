// C04 (attached to chunks.rs): the receive buffer.
use super::verif_acc::*;
use super::*;
use vsupport::*;

fn any_chunk() -> Chunk {
    // Any length, any cursor position within it.
    let n: usize = kani::any();
    kani::assume(n > 0 && n <= 1 << 40);
    let mut c = Chunk { cursor: io::Cursor::new(opaque_vec(n)) };
    let o: u64 = kani::any();
    kani::assume(o <= n as u64);
    c.cursor.set_position(o);
    c
}
/// A buffer of two chunks (the sequence itself is `VecDeque`), the first of which may be partly read.
fn any_chunks() -> Chunks {
    let mut c = Chunks::new();
    let n: u8 = kani::any();
    if n > 0 {
        let x = any_chunk();
        c.len += x.cursor.get_ref().len();
        c.seq.push_back(x);
    }
    if n > 1 {
        let mut x = any_chunk();
        x.cursor.set_position(0);
        c.len += x.cursor.get_ref().len();
        c.seq.push_back(x);
    }
    c
}
/// The number of unread bytes.
fn unread_len(c: &Chunks) -> usize {
    (if c.seq.len() > 0 { c.seq[0].len() } else { 0 }) + (if c.seq.len() > 1 { c.seq[1].len() } else { 0 }) + (if c.seq.len() > 2 { c.seq[2].len() } else { 0 })
}
#[kani::proof]
#[kani::unwind(2)]
fn c04_chunks_len() {
    let c = any_chunks();
    assert!(c.len() == unread_len(&c), "the unread bytes are counted");
    std::mem::forget(c);
}
#[kani::proof]
#[kani::unwind(2)]
fn c04_chunks_push() {
    let mut c = any_chunks();
    let (l, k) = (c.len(), c.seq.len());
    let n: usize = kani::any();
    kani::assume(n <= 1 << 40);
    let x = opaque_vec(n);
    let p = x.as_ptr();
    c.push(x);
    assert!(c.len() == l + n && c.len() == unread_len(&c));
    if n > 0 {
        assert!(c.seq.len() == k + 1);
        let last = &c.seq[k];
        assert!(last.offset() == 0 && last.cursor.get_ref().len() == n && last.cursor.get_ref().as_ptr() == p, "appended at the end, as it is");
    } else {
        assert!(c.seq.len() == k);
    }
    std::mem::forget(c);
}
#[kani::proof]
#[kani::unwind(2)]
fn c04_chunks_pop() {
    let mut c = any_chunks();
    let (l, k) = (c.len(), c.seq.len());
    let p = if k > 0 { c.seq[0].cursor.get_ref().as_ptr() } else { std::ptr::null() };
    let f = if k > 0 { c.seq[0].len() } else { 0 };
    let x = c.pop();
    match &x {
        None => assert!(k == 0 && c.seq.len() == 0),
        Some(x) => {
            assert!(k > 0 && c.seq.len() == k - 1);
            assert!(x.cursor.get_ref().as_ptr() == p && x.len() == f, "the first one, as it is");
        }
    }
    assert!(c.len() == l - f && c.len() == unread_len(&c));
    kani::cover!(k == 2, "two");
    std::mem::forget((c, x));
}
#[kani::proof]
#[kani::unwind(2)]
fn c04_chunk_advance() {
    let mut c = any_chunks();
    let l = c.len();
    let k = c.seq.len();
    let a: usize = kani::any();
    match c.front_mut() {
        None => assert!(k == 0),
        Some(x) => {
            let (n, o) = (x.len(), x.offset());
            kani::assume(a <= n);
            x.advance(a);
            assert!(x.len() == n - a && x.offset() == o + a && x.is_empty() == (a == n));
            assert!(c.len() == l - a && c.len() == unread_len(&c));
            kani::cover!(a > 0 && o > 0, "advanced");
        }
    }
    std::mem::forget(c);
}
/// The view of a chunk starts at its cursor.
#[kani::proof]
#[kani::unwind(5)]
fn c04_chunk_view() {
    let b: [u8; 4] = kani::any();
    let mut x = Chunk { cursor: io::Cursor::new(b.to_vec()) };
    let o: usize = kani::any();
    kani::assume(o <= 4);
    x.advance(o);
    assert!(x.as_ref().len() == 4 - o);
    let i: usize = kani::any();
    if i < 4 - o {
        assert!(x.as_ref()[i] == b[o + i]);
    }
    let v = x.into_vec();
    assert!(v.len() == 4);
    if i < 4 {
        assert!(v[i] == b[i]);
    }
}
