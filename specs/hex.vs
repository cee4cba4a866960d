//@ file hex.rs
//@ top
use vstd::std_specs::iter::*;
broadcast use crate::shim::shim_axioms;
/// the value of a hex digit, in either letter case
pub open spec fn hexval(c: u8) -> Option<u8> {
    if 48 <= c <= 57 { Some((c - 48) as u8) } else if 65 <= c <= 70 { Some((c - 55) as u8) } else if 97 <= c <= 102 { Some((c - 87) as u8) } else { None }
}
/// the lower-case digit of a value below 16
pub open spec fn hexdigit(v: int) -> u8 { if v < 10 { (48 + v) as u8 } else { (87 + v) as u8 } }
/// two lower-case digits per byte, in order
pub open spec fn hex(s: Seq<u8>) -> Seq<u8> {
    Seq::new(2 * s.len(), |i: int| if i % 2 == 0 { hexdigit(s[i / 2] as int / 16) } else { hexdigit(s[i / 2] as int % 16) })
}
pub open spec fn all_hex(t: Seq<u8>) -> bool { forall|i: int| 0 <= i < t.len() ==> hexval(#[trigger] t[i]) is Some }
/// the bytes of a text of hex digits
pub open spec fn unhex(t: Seq<u8>) -> Seq<u8> {
    Seq::new((t.len() / 2) as nat, |i: int| (16 * hexval(t[2 * i])->0 + hexval(t[2 * i + 1])->0) as u8)
}
pub open spec fn first_bad(t: Seq<u8>, e: Error) -> bool {
    exists|i: int| #[trigger] bad_at(t, i) && e == (Error::InvalidHexCharacter { character: t[i] as char, index: i as usize })
}
pub open spec fn bad_at(t: Seq<u8>, i: int) -> bool {
    0 <= i < t.len() && hexval(t[i]) is None && forall|j: int| 0 <= j < i ==> hexval(#[trigger] t[j]) is Some
}
/// what decoding a text must give
pub open spec fn decoded(t: Seq<u8>, room: nat, r: Result<usize, Error>) -> bool {
    if t.len() % 2 != 0 { r == Err::<usize, Error>(Error::OddLength) }
    else if room < t.len() / 2 { r == Err::<usize, Error>(Error::BufferTooSmall) }
    else if all_hex(t) { r == Ok::<usize, Error>((t.len() / 2) as usize) }
    else { r is Err && first_bad(t, r->Err_0) }
}
pub open spec fn decoded_vec(t: Seq<u8>, bytes: Seq<u8>, r: Result<Vec<u8>, Error>) -> bool {
    if t.len() % 2 != 0 { r == Err::<Vec<u8>, Error>(Error::OddLength) }
    else if all_hex(t) { r matches Ok(v) && v@ == bytes }
    else { r is Err && first_bad(t, r->Err_0) }
}
/// decoding inverts encoding
pub proof fn lemma_hex_inverse(s: Seq<u8>)
    ensures all_hex(hex(s)), unhex(hex(s)) == s, hex(s).len() % 2 == 0,
{
    assert(unhex(hex(s)) =~= s);
}
pub proof fn lemma_nibbles(b: u8)
    ensures (b >> 4) == b / 16, (b & 0x0F) == b % 16,
{
    assert((b >> 4) == b / 16) by(bit_vector);
    assert((b & 0x0F) == b % 16) by(bit_vector);
}
pub proof fn lemma_join(h: u8, l: u8)
    requires h < 16, l < 16,
    ensures (h << 4 | l) == 16 * h + l,
{
    assert((h << 4 | l) == 16 * h + l) by(bit_vector) requires h < 16, l < 16;
}
//@ fn value
//@ ret r
ensures
    r is Ok <==> hexval(character) is Some,
    r matches Ok(v) ==> Some(v) == hexval(character) && v < 16,
    r matches Err(e) ==> e == (Error::InvalidHexCharacter { character: character as char, index }),
//@ fn decode
//@ ret r
ensures decoded_vec(input.xb(), unhex(input.xb()), r),
//@ at end
proof { assert(output@ =~= unhex(input.xb())); }
//@ fn decode_into
//@ ret r
ensures
    decoded(input.xb(), (*old(output)).xbm().len(), r),
    r matches Ok(n) ==> (*final(output)).xbm() == unhex(input.xb()) + (*old(output)).xbm().skip(n as int),
    r is Ok ==> (*final(output)).xbm().len() == (*old(output)).xbm().len(),
//@ at start
let ghost inp = input.xb();
let ghost out0 = (*old(output)).xbm();
//@ at loop 0 before
proof { assert(input1.len() == input1@.len()); }
//@ loop 0
invariant
    inp.len() <= usize::MAX, inp == input.xb(), out0 == (*old(output)).xbm(), output1@.len() == out0.len(),
    len == inp.len() / 2, inp.len() % 2 == 0, len <= out0.len(),
    chunked(it0.seq(), inp, 2),
    __n_i == it0.index(),
    forall|j: int| 0 <= j < 2 * it0.index() ==> hexval(#[trigger] inp[j]) is Some,
    forall|j: int| 0 <= j < it0.index() ==> output1@[j] == #[trigger] unhex(inp)[j],
    forall|j: int| it0.index() <= j < out0.len() ==> #[trigger] output1@[j] == out0[j],
//@ at loop 0 start
proof {
    let i = it0.index() as int;
    assert(i < len);
    assert(pair@ == inp.subrange(2 * i, 2 * i + 2));
    if hexval(inp[2 * i]) is Some && hexval(inp[2 * i + 1]) is Some { lemma_join(hexval(inp[2 * i])->0, hexval(inp[2 * i + 1])->0); }
    else if hexval(inp[2 * i]) is None { assert(bad_at(inp, 2 * i)); }
    else { assert(bad_at(inp, 2 * i + 1)); }
}
//@ at loop 0 after
proof { assert(output1@ =~= unhex(inp) + out0.skip(len as int)); }
//@ fn TABLE
ensures TABLE@ == seq![48u8, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102],
//@ fn encode
//@ ret r
requires input.xb().len() * 2 <= usize::MAX,
ensures utf8(r@) == hex(input.xb()),
//@ fn encode_iterator
//@ ret r
requires input.obeys_prophetic_iter_laws(), input.decrease() is Some, input.remaining().len() * 2 <= usize::MAX,
ensures utf8(r@) == hex(input.remaining().map_values(|x: &u8| *x)),
//@ at start
let ghost items = input.remaining();
let ghost s = input.remaining().map_values(|x: &u8| *x);
//@ loop 0
invariant
    it0.iter.obeys_prophetic_iter_laws(), it0.seq() == items, s == items.map_values(|x: &u8| *x),
    output@.len() == 2 * it0.index(),
    forall|j: int| 0 <= j < 2 * it0.index() ==> #[trigger] output@[j] == hex(s)[j],
//@ at loop 0 start
proof { assert(*byte == s[it0.index() as int]); lemma_nibbles(*byte); }
//@ at loop 0 after
proof { assert(output@ =~= hex(s)); }
