//@ file base_binary/encode.rs
//@ top
use crate::nums::*;
use super::*;
use crate::base58::{holds, to_chars};
broadcast use crate::shim::shim_axioms;
//@ impl Encoder
/// six bits per character (the only width used)
pub open spec fn wf(&self) -> bool { self.alphabet.wf() && N == 64 && self.bits == 6 }
//@ fn div_ceil
//@ ret r
requires rhs == 6, lhs <= 0x0400_0000_0000_0000,
ensures r == (lhs + 5) as int / 6,
//@ at start
proof { assert((-(lhs as int)) / (-6int) == (lhs + 5) as int / 6); assert(-(rhs as int) == -6int); }
//@ fn Encoder::new
//@ ret r
requires N == 64, bits == 6,
ensures r.alphabet == alphabet, r.bits == bits,
//@ at start
proof { lemma_pw2(6); assert(1usize << 6usize == 64) by(bit_vector); }
//@ fn Encoder::encode_into
//@ ret r
requires self.wf(), input.xb().len() <= 0x0400_0000_0000_0000,
ensures
    r is Ok <==> padded(ndigits(input.xb().len())) <= (*old(output)).xbm().len(),
    r matches Ok(n) ==> n == padded(ndigits(input.xb().len()))
        && is_text((*final(output)).xbm().take(n as int), input.xb(), self.alphabet.chars())
        && (*final(output)).xbm().skip(n as int) == (*old(output)).xbm().skip(n as int)
        && (*final(output)).xbm().len() == (*old(output)).xbm().len(),
//@ at start
let ghost inp = input.xb();
let ghost out0 = (*old(output)).xbm();
let ghost chars = self.alphabet.chars();
//@ at loop 0 before
let ghost mut cur = Seq::<u8>::empty();
proof { lemma_pw2(0); lemma_pw2(6); lemma_pw2(8); }
//@ loop 0
invariant
    self.wf(), inp == input.xb(), chars == self.alphabet.chars(), inp.len() <= 0x0400_0000_0000_0000,
    out0.len() == output1@.len(), out0 == (*old(output)).xbm(),
    it0.seq().len() == inp.len(), forall|i: int| 0 <= i < inp.len() ==> *(#[trigger] it0.seq()[i]) == inp[i],
    index == cur.len(), index <= output1@.len(), bits < 6,
    digits_ok(cur, 64),
    accumulator < pw(2, bits as nat),
    8 * it0.index() == 6 * cur.len() + bits,
    be_val(inp.take(it0.index() as int), 256) == be_val(cur, 64) * pw(2, bits as nat) + accumulator,
    holds(output1@, to_chars(cur, chars), out0),
//@ at loop 0 start
proof {
    let k = it0.index() as int;
    lemma_be_take(inp, k, 256);
    lemma_pw2(bits as nat);
    lemma_pw2(8);
    lemma_pw_mono(2, bits as nat, 6);
    lemma_join_bits(accumulator, 8, inp[k] as usize);
    lemma_absorb(be_val(cur, 64), accumulator as nat, inp[k] as nat, bits as nat, 8);
}
//@ at loop 1 before
let ghost k = it0.index() as int;
//@ loop 1
invariant
    self.wf(), inp == input.xb(), chars == self.alphabet.chars(),
    out0.len() == output1@.len(), out0 == (*old(output)).xbm(),
    0 <= k < inp.len(),
    index == cur.len(), index <= output1@.len(), bits <= 13,
    digits_ok(cur, 64),
    accumulator < pw(2, bits as nat),
    8 * (k + 1) == 6 * cur.len() + bits,
    be_val(inp.take(k + 1), 256) == be_val(cur, 64) * pw(2, bits as nat) + accumulator,
    holds(output1@, to_chars(cur, chars), out0),
decreases bits,
//@ at loop 1 start
let ghost b1 = (bits - 6) as nat;
let ghost a1 = accumulator;
let ghost cur1 = cur;
proof {
    assert(output1.len() == output1@.len());
    lemma_split_bits(accumulator, b1 as usize);
    lemma_pw2(b1); lemma_pw2(6);
    lemma_emit(be_val(cur, 64), a1 as nat, b1, 6);
}
//@ at loop 1 end
proof {
    let d = (a1 as nat / pw(2, b1)) as u8;
    cur = cur.push(d);
    assert(cur.drop_last() =~= cur1);
    assert(to_chars(cur, chars) =~= to_chars(cur1, chars).push(chars[d as int]));
}
//@ at loop 0 after
let ghost m0 = cur;
proof {
    assert(inp.take(inp.len() as int) =~= inp);
    assert(output1.len() == output1@.len());
    if bits > 0 {
        let c = (6 - bits) as nat;
        lemma_pw2(bits as nat); lemma_pw2(c); lemma_pw2(6);
        lemma_pw_mono(2, bits as nat, 6);
        lemma_join_bits(accumulator, c as usize, 0);
        lemma_absorb(be_val(m0, 64), accumulator as nat, 0, bits as nat, c);
        let d = (accumulator * pw(2, c)) as u8;
        cur = cur.push(d);
        assert(cur.drop_last() =~= m0);
        assert(to_chars(cur, chars) =~= to_chars(m0, chars).push(chars[d as int]));
    } else {
        lemma_pw2(0);
        assert(be_val(m0, 64) * 1 == be_val(m0, 64)) by(nonlinear_arith);
        assert(be_val(inp, 256) * 1 == be_val(inp, 256)) by(nonlinear_arith);
    }
    assert(is_digits(cur, inp));
}
//@ at loop 2 before
let ghost m = cur.len();
let ghost mut txt = to_chars(cur, chars);
//@ loop 2
invariant
    self.wf(), inp == input.xb(), inp.len() <= 0x0400_0000_0000_0000, m == ndigits(inp.len()),
    out0.len() == output1@.len(), out0 == (*old(output)).xbm(),
    m <= index <= output1@.len(), index == txt.len(), index <= padded(m), cur.len() == m,
    txt =~= to_chars(cur, chars) + Seq::new((index - m) as nat, |i: int| 0x3du8),
    holds(output1@, txt, out0),
ensures
    index == padded(m),
decreases padded(m) - index,
//@ at loop 2 start
proof { assert(output1.len() == output1@.len()); }
//@ at loop 2 end
proof { txt = txt.push(0x3du8); }
//@ at end
proof {
    assert(output1@.take(index as int) =~= text_of(cur, chars));
    assert(output1@.skip(index as int) =~= out0.skip(index as int));
}
//@ fn Encoder::encode
//@ ret r
requires self.wf(), input.xb().len() <= 0x0400_0000_0000_0000,
ensures is_text(utf8(r@), input.xb(), self.alphabet.chars()),
//@ at end
proof {
    assert(output@.len() == padded(ndigits(input.xb().len())));
    let d = choose|d: Seq<u8>| #[trigger] is_digits(d, input.xb()) && output@ == text_of(d, self.alphabet.chars());
    assert forall|i: int| 0 <= i < output@.len() implies output@[i] < 128 by {
        if i < d.len() { assert(d[i] < 64); assert(self.alphabet.encode@[d[i] as int] < 128); }
    }
}
