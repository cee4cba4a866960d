//@ file base58/decode.rs
//@ top
use crate::nums::*;
use super::*;
broadcast use crate::shim::shim_axioms;
/// the first byte outside the alphabet is the one reported
pub open spec fn first_bad(text: Seq<u8>, chars: Seq<u8>, e: Error) -> bool {
    exists|i: int| 0 <= i < text.len() && !in_chars(chars, #[trigger] text[i]) && (forall|j: int| 0 <= j < i ==> in_chars(chars, #[trigger] text[j]))
        && e == bad_char(text[i], i as usize)
}
pub open spec fn bad_char(c: u8, index: usize) -> Error {
    if c >= 128 { Error::NonAsciiCharacter { index, character: c } } else { Error::InvalidCharacter { character: c as char, index } }
}
impl vstd::std_specs::convert::FromSpecImpl<alphabet::DecodeError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: alphabet::DecodeError) -> Error {
        match e {
            alphabet::DecodeError::InvalidCharacter { character, index } => Error::InvalidCharacter { character, index },
            alphabet::DecodeError::NonAsciiCharacter { character, index } => Error::NonAsciiCharacter { character, index },
        }
    }
}
/// the value of the first k digits has at most k bytes
pub proof fn lemma_prefix_room(inp: Seq<u8>, a: &Alphabet<58>, k: int)
    requires a.wf(), 0 <= k <= inp.len(), forall|j: int| 0 <= j < k ==> in_chars(a.chars(), #[trigger] inp[j]),
    ensures le_digits(be_val(to_digits(inp, a.chars()).take(k), 58), 256).len() <= inp.len(),
{
    let d = to_digits(inp, a.chars()).take(k);
    assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) < 58 by { assert(in_chars(a.chars(), inp[i])); a.lemma_has(inp[i]); }
    lemma_be_bound(d, 58);
    lemma_pw_base(k as nat);
    lemma_digits_len(be_val(d, 58), 256, k as nat);
}
pub proof fn lemma_pw_base(n: nat)
    ensures pw(58, n) <= pw(256, n),
    decreases n,
{
    if n > 0 {
        lemma_pw_base((n - 1) as nat);
        let (x, y) = (pw(58, (n - 1) as nat), pw(256, (n - 1) as nat));
        assert(58 * x <= 256 * y) by(nonlinear_arith) requires x <= y;
    }
}
/// a text is at least as long as the bytes it stands for
pub proof fn lemma_room(inp: Seq<u8>, a: Alphabet<58>)
    requires a.wf(), over(inp, a.chars()),
    ensures b58_bytes(inp, a.chars()).len() <= inp.len(),
{
    let d = to_digits(inp, a.chars());
    let n = leading(d, 0u8);
    lemma_leading_props(d, 0u8);
    let t = d.subrange(n as int, d.len() as int);
    assert(d =~= zeros(n) + t);
    lemma_be_prefix_zeros(n, t, 58);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) < 58 by { assert(in_chars(a.chars(), inp[i + n])); a.lemma_has(inp[i + n]); }
    lemma_be_bound(t, 58);
    lemma_pw_base(t.len());
    lemma_digits_len(be_val(t, 58), 256, t.len());
}
//@ impl Decoder
pub open spec fn wf(&self) -> bool { self.alphabet.wf() }
//@ fn Error as From<alphabet::DecodeError>::from
//@ fn Decoder::new
//@ ret r
ensures r.alphabet == alphabet,
//@ fn Decoder::decode_into
//@ ret r
requires self.wf(),
ensures
    r is Ok ==> (*final(output)).xbm().len() == (*old(output)).xbm().len(),
    over(input.xb(), self.alphabet.chars()) ==> (r is Ok <==> b58_bytes(input.xb(), self.alphabet.chars()).len() <= (*old(output)).xbm().len()),
    over(input.xb(), self.alphabet.chars()) && r is Err ==> r->Err_0 == Error::BufferTooSmall,
    !over(input.xb(), self.alphabet.chars()) ==> r is Err && (r->Err_0 == Error::BufferTooSmall || first_bad(input.xb(), self.alphabet.chars(), r->Err_0)),
    !over(input.xb(), self.alphabet.chars()) && (*old(output)).xbm().len() >= input.xb().len() ==> r is Err && first_bad(input.xb(), self.alphabet.chars(), r->Err_0),
    r matches Ok(n) ==> n == b58_bytes(input.xb(), self.alphabet.chars()).len()
        && (*final(output)).xbm() == b58_bytes(input.xb(), self.alphabet.chars()) + (*old(output)).xbm().skip(n as int),
//@ at start
let ghost inp = input.xb();
let ghost out0 = (*old(output)).xbm();
let ghost chars = self.alphabet.chars();
let ghost dig = to_digits(inp, chars);
let ghost nz = leading(dig, 0u8);
proof { assert(self.alphabet.encode@.len() == 58); }
//@ at loop 0 before
let ghost mut cur = Seq::<u8>::empty();
proof { assert(0 * 58 == 0) by(nonlinear_arith); }
//@ loop 0
invariant
    self.wf(), inp == input.xb(), chars == self.alphabet.chars(), chars.len() == 58, dig == to_digits(inp, chars),
    input1@ == inp, out0.len() == output1@.len(), out0 == (*old(output)).xbm(),
    it0.seq().len() == inp.len(), forall|i: int| 0 <= i < inp.len() ==> *(#[trigger] it0.seq()[i]) == inp[i],
    forall|j: int| 0 <= j < it0.index() ==> in_chars(chars, #[trigger] inp[j]),
    __n_input_index == it0.index(),
    output_index == cur.len(), output_index <= output1@.len(),
    canonical(cur, 256),
    le_val(cur, 256) == be_val(dig.take(it0.index() as int), 58),
    holds(output1@, cur, out0),
//@ at let carry before
let ghost k = it0.index() as int;
proof {
    assert(value == inp[k]);
    if !in_chars(chars, value) {
        assert(!over(inp, chars));
        assert(first_bad(inp, chars, bad_char(inp[k], k as usize)));
    }
}
//@ at loop 1 before
let ghost byte = dig[k] as nat;
let ghost d0 = cur;
let ghost want = le_val(d0, 256) * 58 + byte;
let ghost mut nd = Seq::<u8>::empty();
proof {
    self.alphabet.lemma_has(value);
    assert(carry == byte);
    lemma_be_take(dig, k, 58);
    lemma_be_mono(dig, k + 1, 58);
    lemma_prefix_room(inp, self.alphabet, k + 1);
    assert(d0.take(0) =~= Seq::<u8>::empty());
    assert(carry * 1 == carry) by(nonlinear_arith);
    assert(0 * 58 == 0) by(nonlinear_arith);
}
//@ loop 1
invariant
    it1.seq().len() == d0.len(), nd.len() == it1.index(),
    forall|i: int| it1.index() <= i < d0.len() ==> *(#[trigger] it1.seq()[i]) == d0[i],
    forall|i: int| 0 <= i < it1.index() ==> *final(#[trigger] it1.seq()[i]) == nd[i],
    carry <= 57,
    le_val(nd, 256) + carry as nat * pw(256, nd.len()) == le_val(d0.take(nd.len() as int), 256) * 58 + byte,
//@ at loop 1 start
let ghost c0 = carry as nat;
let ghost dg = *value;
proof {
    assert(dg == d0[it1.index() as int]);
    let t = (c0 + dg as nat * 58) as usize;
    assert(t & 0xFF == t % 256) by(bit_vector);
    assert(t >> 8 == t / 256) by(bit_vector);
}
//@ at loop 1 end
proof {
    let n = nd.len();
    lemma_le_take(d0, n as int, 256);
    lemma_muladd(le_val(nd, 256), c0, le_val(d0.take(n as int), 256), 58, byte, dg as nat, pw(256, n), 256);
    lemma_le_push(nd, *value, 256);
    nd = nd.push(*value);
}
//@ at loop 1 after
proof {
    assert(d0.take(nd.len() as int) =~= d0);
    assert(holds(output1@, nd, out0));
    if carry == 0 && nd.len() > 0 {
        assert(0 * pw(256, nd.len()) == 0) by(nonlinear_arith);
        lemma_le_min(d0, 256);
        lemma_top_digit(nd, 256);
    }
    cur = nd;
}
//@ loop 2
invariant
    inp == input.xb(), chars == self.alphabet.chars(), dig == to_digits(inp, chars), out0 == (*old(output)).xbm(),
    over(inp, chars) ==> want <= be_val(dig, 58),
    le_digits(want, 256).len() <= inp.len(),
    output_index == cur.len(), output_index <= output1@.len(), carry <= 57, out0.len() == output1@.len(),
    carry == 0 ==> canonical(cur, 256),
    le_val(cur, 256) + carry as nat * pw(256, output_index as nat) == want,
    holds(output1@, cur, out0),
decreases carry,
//@ at loop 2 start
let ghost c1 = carry as nat;
proof {
    assert(output1.len() == output1@.len());
    assert(carry & 0xFF == carry % 256) by(bit_vector);
    assert(carry >> 8 == carry / 256) by(bit_vector);
    if output_index == output1@.len() {
        let p = pw(256, output_index as nat);
        assert(c1 * p >= p) by(nonlinear_arith) requires c1 >= 1;
        lemma_digits_len_min(want, 256, output_index as nat);
        if over(inp, chars) { lemma_digits_len_min(be_val(dig, 58), 256, output_index as nat); }
    }
}
//@ at loop 2 end
proof {
    let d = (c1 % 256) as u8;
    lemma_carry(le_val(cur, 256), c1, pw(256, cur.len()), 256);
    lemma_le_push(cur, d, 256);
    cur = cur.push(d);
}
//@ at loop 2 after
proof { assert(0 * pw(256, output_index as nat) == 0) by(nonlinear_arith); }
//@ at loop 0 after
let ghost le = cur;
proof {
    assert(over(inp, chars));
    assert(dig.take(dig.len() as int) =~= dig);
    lemma_canonical(le, 256);
    lemma_leading_props(dig, 0u8);
}
//@ loop 3
invariant_except_break
    output_index == le.len() + it3.index(),
invariant
    self.wf(), chars == self.alphabet.chars(), chars.len() == 58, zero == chars[0],
    inp == input.xb(), over(inp, chars), dig == to_digits(inp, chars), out0 == (*old(output)).xbm(),
    it3.seq().len() == inp.len(), forall|i: int| 0 <= i < inp.len() ==> *(#[trigger] it3.seq()[i]) == inp[i],
    output1@.len() == out0.len(), nz == leading(dig, 0u8), le == le_digits(be_val(dig, 58), 256),
    nz <= dig.len(), forall|i: int| 0 <= i < nz ==> dig[i] == 0, nz < dig.len() ==> dig[nz as int] != 0,
    le.len() <= output_index <= output1@.len(), output_index - le.len() <= nz,
    holds(output1@, le + zeros((output_index - le.len()) as nat), out0),
ensures
    nz == output_index - le.len(),
//@ at loop 3 start
let ghost idx = output_index;
proof {
    assert(output1.len() == output1@.len());
    let i = it3.index() as int;
    assert(in_chars(chars, inp[i]));
    self.alphabet.lemma_has(inp[i]);
    self.alphabet.lemma_digit(0);
    assert(dig[i] == digit(chars, inp[i]));
}
//@ at loop 3 end
proof {
    assert(le + zeros((output_index - le.len()) as nat) =~= (le + zeros((idx - le.len()) as nat)).push(0u8));
}
//@ at loop 3 after
let ghost o4 = output1@;
//@ at end
proof {
    assert((le + zeros(nz)).reverse() =~= rebase(dig, 58, 256));
    lemma_reversed(o4, output1@, le + zeros(nz), out0);
}
//@ fn Decoder::decode
//@ ret r
requires self.wf(),
ensures
    r matches Ok(v) ==> over(input.xb(), self.alphabet.chars()) && v@ == b58_bytes(input.xb(), self.alphabet.chars()),
    r matches Err(e) ==> !over(input.xb(), self.alphabet.chars()) && first_bad(input.xb(), self.alphabet.chars(), e),
//@ at start
proof { if over(input.xb(), self.alphabet.chars()) { lemma_room(input.xb(), *self.alphabet); } }
//@ fn Decoder::default
//@ ret r
ensures r.wf(), r.alphabet.chars() == btc58(),
//@ fn DECODER
ensures DECODER.wf(), DECODER.alphabet.chars() == btc58(),
//@ fn decode
//@ ret r
ensures
    r matches Ok(v) ==> over(input.xb(), btc58()) && v@ == b58_bytes(input.xb(), btc58()),
    r matches Err(e) ==> !over(input.xb(), btc58()) && first_bad(input.xb(), btc58(), e),
//@ fn decode_into
//@ ret r
ensures
    r is Ok ==> (*final(output)).xbm().len() == (*old(output)).xbm().len(),
    over(input.xb(), btc58()) ==> (r is Ok <==> b58_bytes(input.xb(), btc58()).len() <= (*old(output)).xbm().len()),
    over(input.xb(), btc58()) && r is Err ==> r->Err_0 == Error::BufferTooSmall,
    !over(input.xb(), btc58()) ==> r is Err && (r->Err_0 == Error::BufferTooSmall || first_bad(input.xb(), btc58(), r->Err_0)),
    !over(input.xb(), btc58()) && (*old(output)).xbm().len() >= input.xb().len() ==> r is Err && first_bad(input.xb(), btc58(), r->Err_0),
    r matches Ok(n) ==> n == b58_bytes(input.xb(), btc58()).len()
        && (*final(output)).xbm() == b58_bytes(input.xb(), btc58()) + (*old(output)).xbm().skip(n as int),
