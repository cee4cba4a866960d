//@ file base_binary/decode.rs
//@ top
use crate::nums::*;
use super::*;
use crate::base58::{holds, to_chars, to_digits};
use crate::base_common::alphabet::*;
broadcast use crate::shim::shim_axioms;
impl vstd::std_specs::convert::FromSpecImpl<alphabet::DecodeError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: alphabet::DecodeError) -> Error {
        match e {
            alphabet::DecodeError::InvalidCharacter { character, index } => Error::InvalidCharacter { character, index },
            alphabet::DecodeError::NonAsciiCharacter { character, index } => Error::NonAsciiCharacter { character, index },
        }
    }
}
/// the first byte outside the alphabet and '=' is the one reported
pub open spec fn first_bad(text: Seq<u8>, chars: Seq<u8>, e: Error) -> bool {
    exists|i: int| 0 <= i < text.len() && !pad_or_in(chars, #[trigger] text[i]) && (forall|j: int| 0 <= j < i ==> pad_or_in(chars, #[trigger] text[j]))
        && e == bad_char(text[i], i as usize)
}
pub open spec fn bad_char(c: u8, index: usize) -> Error {
    if c >= 128 { Error::NonAsciiCharacter { index, character: c } } else { Error::InvalidCharacter { character: c as char, index } }
}
pub proof fn lemma_strip_take(t: Seq<u8>, k: int)
    requires 0 <= k < t.len(),
    ensures strip(t.take(k + 1)) == (if t[k] == 0x3d { strip(t.take(k)) } else { strip(t.take(k)).push(t[k]) }),
{
    assert(t.take(k + 1).drop_last() =~= t.take(k));
    assert(t.take(k + 1).last() == t[k]);
}
pub proof fn lemma_strip_len(t: Seq<u8>, k: int)
    requires 0 <= k <= t.len(),
    ensures strip(t.take(k)).len() <= strip(t).len(), strip(t).len() - strip(t.take(k)).len() <= t.len() - k,
    decreases t.len() - k,
{
    if k < t.len() {
        lemma_strip_take(t, k);
        lemma_strip_len(t, k + 1);
    } else {
        assert(t.take(k) =~= t);
    }
}
//@ impl Decoder
pub open spec fn wf(&self) -> bool { self.alphabet.wf() && N == 64 && self.bits == 6 }
/// the bits left over after the last whole byte are zero
pub open spec fn clean(&self, t: Seq<u8>) -> bool {
    be_val(digits_of(t, self.alphabet.chars()), 64) % pw(2, left(strip(t).len())) == 0
}
//@ fn Error as From<alphabet::DecodeError>::from
//@ fn Decoder::new
//@ ret r
requires N == 64, bits == 6,
ensures r.alphabet == alphabet, r.bits == bits,
//@ at start
proof { assert(1usize << 6usize == 64) by(bit_vector); }
//@ fn Decoder::decode_into
//@ ret r
requires self.wf(), may_panic() || (over(input.xb(), self.alphabet.chars()) ==> self.clean(input.xb())),
ensures
    r matches Ok(n) ==> over(input.xb(), self.alphabet.chars()) && n == whole(strip(input.xb()).len())
        && is_bytes((*final(output)).xbm().take(n as int), digits_of(input.xb(), self.alphabet.chars()))
        && (*final(output)).xbm().skip(n as int) == (*old(output)).xbm().skip(n as int)
        && (*final(output)).xbm().len() == (*old(output)).xbm().len()
        && n <= (*old(output)).xbm().len(),
    r matches Err(e) ==> e == Error::BufferTooSmall || (!over(input.xb(), self.alphabet.chars()) && first_bad(input.xb(), self.alphabet.chars(), e)),
    r matches Err(e) ==> e == Error::BufferTooSmall ==> whole(strip(input.xb()).len()) > (*old(output)).xbm().len(),
//@ at start
let ghost inp = input.xb();
let ghost out0 = (*old(output)).xbm();
let ghost chars = self.alphabet.chars();
let ghost st = strip(inp);
//@ at loop 0 before
let ghost mut cur = Seq::<u8>::empty();
proof { lemma_pw2(0); lemma_pw2(6); lemma_pw2(8); assert(inp.take(0) =~= Seq::<u8>::empty()); lemma_strip_len(inp, 0); }
//@ loop 0
invariant
    self.wf(), inp == input.xb(), chars == self.alphabet.chars(), chars.len() == 64, st == strip(inp),
    out0.len() == output1@.len(), out0 == (*old(output)).xbm(),
    it0.seq().len() == inp.len(), forall|i: int| 0 <= i < inp.len() ==> *(#[trigger] it0.seq()[i]) == inp[i],
    __n_input_index == it0.index(),
    forall|j: int| 0 <= j < it0.index() ==> pad_or_in(chars, #[trigger] inp[j]),
    output_index == cur.len(), output_index <= output1@.len(), bits < 8,
    accumulator < pw(2, bits as nat),
    strip(inp.take(it0.index() as int)).len() * 6 == 8 * cur.len() + bits,
    be_val(digits_of(inp.take(it0.index() as int), chars), 64) == be_val(cur, 256) * pw(2, bits as nat) + accumulator,
    holds(output1@, cur, out0),
//@ at loop 0 start
let ghost k = it0.index() as int;
proof {
    assert(self.alphabet.encode@.len() == 64);
    lemma_strip_take(inp, k);
    lemma_strip_len(inp, k + 1);
}
//@ at let byte before
proof {
    assert(value == inp[k]);
    if !in_chars(chars, value) {
        assert(!pad_or_in(chars, inp[k]));
        assert(!over(inp, chars));
        assert(first_bad(inp, chars, bad_char(inp[k], k as usize)));
    }
}
//@ at let byte
proof {
    let d0 = digits_of(inp.take(k), chars);
    let d1 = digits_of(inp.take(k + 1), chars);
    assert(d1 =~= d0.push(byte));
    assert(d1.drop_last() =~= d0);
    lemma_pw2(6); lemma_pw2(8); lemma_pw2(bits as nat);
    lemma_pw_mono(2, bits as nat, 8);
    lemma_join_bits(accumulator, 6, byte as usize);
    lemma_absorb(be_val(cur, 256), accumulator as nat, byte as nat, bits as nat, 6);
}
//@ loop 1
invariant
    self.wf(), inp == input.xb(), chars == self.alphabet.chars(), 0 <= k < inp.len(), st == strip(inp),
    strip(inp.take(k + 1)).len() <= st.len(),
    out0.len() == output1@.len(), out0 == (*old(output)).xbm(),
    output_index == cur.len(), output_index <= output1@.len(), bits <= 13,
    accumulator < pw(2, bits as nat),
    strip(inp.take(k + 1)).len() * 6 == 8 * cur.len() + bits,
    be_val(digits_of(inp.take(k + 1), chars), 64) == be_val(cur, 256) * pw(2, bits as nat) + accumulator,
    holds(output1@, cur, out0),
decreases bits,
//@ at loop 1 start
let ghost b1 = (bits - 8) as nat;
let ghost a1 = accumulator;
let ghost cur1 = cur;
proof {
    assert(output1.len() == output1@.len());
    lemma_split_bits(accumulator, b1 as usize);
    lemma_pw2(b1); lemma_pw2(8);
    lemma_emit(be_val(cur, 256), a1 as nat, b1, 8);
}
//@ at loop 1 end
proof {
    let d = (a1 as nat / pw(2, b1)) as u8;
    cur = cur.push(d);
    assert(cur.drop_last() =~= cur1);
}
//@ at loop 0 after
proof {
    assert(inp.take(inp.len() as int) =~= inp);
    assert(over(inp, chars));
    let p = pw(2, bits as nat);
    let x = be_val(cur, 256);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse((x * p + accumulator) as int, p as int, x as int, accumulator as int);
}
//@ at end
proof {
    assert(output1@.take(output_index as int) =~= cur);
    assert(output1@.skip(output_index as int) =~= out0.skip(output_index as int));
}
//@ fn Decoder::decode
//@ ret r
requires self.wf(), input.xb().len() <= 0x0400_0000_0000_0000, may_panic() || (over(input.xb(), self.alphabet.chars()) ==> self.clean(input.xb())),
ensures
    r matches Ok(v) ==> over(input.xb(), self.alphabet.chars()) && is_bytes(v@, digits_of(input.xb(), self.alphabet.chars())),
    r matches Err(e) ==> !over(input.xb(), self.alphabet.chars()) && first_bad(input.xb(), self.alphabet.chars(), e),
//@ at start
proof { lemma_strip_len(input.xb(), 0); }
