//@ file hashing_buffer_reader.rs
//@ top
use crate::nums::{le_val, pw};
broadcast use crate::shim::shim_axioms;
/// the bytes s[p..q]
pub open spec fn cut(s: Seq<u8>, p: int, q: int) -> Seq<u8> { s.subrange(p, q) }
/// the n bytes of `s` at `p` as a little-endian number
pub open spec fn le_at(s: Seq<u8>, p: int, n: int) -> nat { le_val(s.subrange(p, p + n), 256) }
/// size of a variable-length integer by its first byte
pub open spec fn vi_size(b: u8) -> int { if b == 0xFD { 3 } else if b == 0xFE { 5 } else if b == 0xFF { 9 } else { 1 } }
pub open spec fn vi_ok(s: Seq<u8>, p: int) -> bool { 0 <= p < s.len() && p + vi_size(s[p]) <= s.len() }
pub open spec fn vi_end(s: Seq<u8>, p: int) -> int { p + vi_size(s[p]) }
pub open spec fn vi(s: Seq<u8>, p: int) -> nat { if vi_size(s[p]) == 1 { s[p] as nat } else { le_at(s, p + 1, vi_size(s[p]) - 1) } }
/// a counted byte string
pub open spec fn vb_ok(s: Seq<u8>, p: int) -> bool { vi_ok(s, p) && vi_end(s, p) + vi(s, p) <= s.len() }
pub open spec fn vb_end(s: Seq<u8>, p: int) -> int { vi_end(s, p) + vi(s, p) }
pub open spec fn vb(s: Seq<u8>, p: int) -> Seq<u8> { s.subrange(vi_end(s, p), vb_end(s, p)) }

/// a hasher, when there is one, has been given exactly `bytes` more
#[verifier::prophetic]
pub open spec fn fed_by(a: Option<&mut Hasher>, b: Option<&mut Hasher>, bytes: Seq<u8>) -> bool {
    match (a, b) {
        (Some(x), Some(y)) => (*y).fed() == (*x).fed() + bytes && *final(x) == *final(y),
        (None, None) => true,
        _ => false,
    }
}
/// consecutive pieces
pub broadcast proof fn lemma_join(x: Seq<u8>, s: Seq<u8>, a: int, b: int, c: int)
    requires 0 <= a <= b <= c <= s.len(),
    ensures #[trigger] ((x + s.subrange(a, b)) + s.subrange(b, c)) == x + s.subrange(a, c),
{
    assert(((x + s.subrange(a, b)) + s.subrange(b, c)) =~= x + s.subrange(a, c));
}
pub broadcast proof fn lemma_byte(s: Seq<u8>, p: int)
    requires 0 <= p < s.len(),
    ensures le_val(#[trigger] s.subrange(p, p + 1), 256) == s[p] as nat,
{
    let t = s.subrange(p, p + 1);
    assert(t.drop_first() =~= Seq::<u8>::empty());
    assert(le_val(t.drop_first(), 256) == 0);
}
//@ impl Hasher
/// the bytes hashed so far
pub open spec fn fed(&self) -> Seq<u8> { self.hasher.fed() }
//@ fn Hasher::new
//@ ret r
ensures r.fed() == Seq::<u8>::empty(),
//@ fn Hasher::update
ensures final(self).fed() == old(self).fed() + buffer@,
//@ fn Hasher::digest
//@ ret r
ensures r@ == sha256d(self.fed()),
//@ impl HashingBufferReader
pub open spec fn data(&self) -> Seq<u8> { self.buffer@ }
pub open spec fn pos(&self) -> int { self.offset as int }
pub open spec fn wf(&self) -> bool { self.pos() <= self.data().len() }
/// same buffer, position moved from `p` to `q`
pub open spec fn moved(a: Self, b: Self, q: int) -> bool { b.data() == a.data() && b.pos() == q && a.pos() <= q && b.wf() }
//@ fn HashingBufferReader::new
//@ ret r
ensures r.data() == buffer@, r.pos() == 0, r.wf(),
//@ fn HashingBufferReader::offset
//@ ret r
ensures r == self.pos(),
//@ fn HashingBufferReader::read_i32_le
//@ ret r
requires old(self).wf(), old(self).pos() + 4 <= old(self).data().len(),
ensures
    Self::moved(*old(self), *final(self), old(self).pos() + 4),
    r as u32 as nat == le_at(old(self).data(), old(self).pos(), 4),
    fed_by(*old(hasher), *final(hasher), cut(old(self).data(), old(self).pos(), final(self).pos())),
//@ fn HashingBufferReader::read_bool
//@ ret r
requires old(self).wf(), old(self).pos() + 1 <= old(self).data().len(),
ensures
    Self::moved(*old(self), *final(self), old(self).pos() + 1),
    r == (old(self).data()[old(self).pos()] != 0),
    fed_by(*old(hasher), *final(hasher), cut(old(self).data(), old(self).pos(), final(self).pos())),
//@ fn HashingBufferReader::read_u8
//@ ret r
requires old(self).wf(), old(self).pos() + 1 <= old(self).data().len(),
ensures
    Self::moved(*old(self), *final(self), old(self).pos() + 1),
    r == old(self).data()[old(self).pos()],
    fed_by(*old(hasher), *final(hasher), cut(old(self).data(), old(self).pos(), final(self).pos())),
//@ fn HashingBufferReader::read_u16_le
//@ ret r
requires old(self).wf(), old(self).pos() + 2 <= old(self).data().len(),
ensures
    Self::moved(*old(self), *final(self), old(self).pos() + 2),
    r as nat == le_at(old(self).data(), old(self).pos(), 2),
    fed_by(*old(hasher), *final(hasher), cut(old(self).data(), old(self).pos(), final(self).pos())),
//@ fn HashingBufferReader::read_u32_le
//@ ret r
requires old(self).wf(), old(self).pos() + 4 <= old(self).data().len(),
ensures
    Self::moved(*old(self), *final(self), old(self).pos() + 4),
    r as nat == le_at(old(self).data(), old(self).pos(), 4),
    fed_by(*old(hasher), *final(hasher), cut(old(self).data(), old(self).pos(), final(self).pos())),
//@ fn HashingBufferReader::read_u64_le
//@ ret r
requires old(self).wf(), old(self).pos() + 8 <= old(self).data().len(),
ensures
    Self::moved(*old(self), *final(self), old(self).pos() + 8),
    r as nat == le_at(old(self).data(), old(self).pos(), 8),
    fed_by(*old(hasher), *final(hasher), cut(old(self).data(), old(self).pos(), final(self).pos())),
//@ fn HashingBufferReader::read_var_int_le
//@ ret r
requires old(self).wf(), vi_ok(old(self).data(), old(self).pos()),
ensures
    Self::moved(*old(self), *final(self), vi_end(old(self).data(), old(self).pos())),
    r as nat == vi(old(self).data(), old(self).pos()),
    fed_by(*old(hasher), *final(hasher), cut(old(self).data(), old(self).pos(), final(self).pos())),
//@ at start
broadcast use lemma_join;
//@ fn HashingBufferReader::read_buffer
//@ ret r
requires old(self).wf(), old(self).pos() + length <= old(self).data().len(),
ensures
    Self::moved(*old(self), *final(self), old(self).pos() + length),
    r@ == cut(old(self).data(), old(self).pos(), old(self).pos() + length),
    fed_by(*old(hasher), *final(hasher), r@),
//@ at start
assert(self.buffer.len() == self.buffer@.len());
//@ fn HashingBufferReader::read_var_buffer_le
//@ ret r
requires old(self).wf(), vb_ok(old(self).data(), old(self).pos()),
ensures
    Self::moved(*old(self), *final(self), vb_end(old(self).data(), old(self).pos())),
    r@ == vb(old(self).data(), old(self).pos()),
    fed_by(*old(hasher), *final(hasher), cut(old(self).data(), old(self).pos(), final(self).pos())),
//@ at start
broadcast use lemma_join;
//@ fn HashingBufferReader::read_hash
//@ ret r
requires old(self).wf(), old(self).pos() + 32 <= old(self).data().len(),
ensures
    Self::moved(*old(self), *final(self), old(self).pos() + 32),
    r@ == cut(old(self).data(), old(self).pos(), old(self).pos() + 32),
    fed_by(*old(hasher), *final(hasher), cut(old(self).data(), old(self).pos(), final(self).pos())),
//@ fn HashingBufferReader::peek_u8
//@ ret r
requires self.wf(), self.pos() < self.data().len(),
ensures r == self.data()[self.pos()],
//@ fn HashingBufferReader::skip
requires old(self).wf(), old(self).pos() + length <= old(self).data().len(),
ensures
    Self::moved(*old(self), *final(self), old(self).pos() + length),
    fed_by(*old(hasher), *final(hasher), cut(old(self).data(), old(self).pos(), final(self).pos())),
