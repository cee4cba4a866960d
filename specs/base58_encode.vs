//@ file base58/encode.rs
//@ drop fn encode
//@ top
use crate::nums::*;
use super::*;
broadcast use crate::shim::shim_axioms;
//@ impl Encoder
pub open spec fn wf(&self) -> bool { self.alphabet.wf() }
//@ fn Encoder::new
//@ ret r
ensures r.alphabet == alphabet,
//@ fn Encoder::encode_into
//@ ret r
requires self.wf(),
ensures
    r is Ok <==> rebase(input.xb(), 256, 58).len() <= (*old(output)).xbm().len(),
    r matches Ok(n) ==> n == rebase(input.xb(), 256, 58).len()
        && (*final(output)).xbm() == b58_text(input.xb(), self.alphabet.chars()) + (*old(output)).xbm().skip(n as int),
    r is Ok ==> (*final(output)).xbm().len() == (*old(output)).xbm().len(),
//@ at start
let ghost inp = input.xb();
let ghost out0 = (*old(output)).xbm();
let ghost val = be_val(inp, 256);
let ghost nz = leading(inp, 0u8);
//@ at loop 0 before
let ghost mut cur = Seq::<u8>::empty();
proof { assert(0 * 256 == 0) by(nonlinear_arith); }
//@ loop 0
invariant
    self.wf(), inp == input.xb(), val == be_val(inp, 256),
    input1@ == inp, out0.len() == output1@.len(), out0 == (*old(output)).xbm(),
    it0.seq().len() == inp.len(), forall|i: int| 0 <= i < inp.len() ==> *(#[trigger] it0.seq()[i]) == inp[i],
    index == cur.len(), index <= output1@.len(),
    canonical(cur, 58),
    le_val(cur, 58) == be_val(inp.take(it0.index() as int), 256),
    holds(output1@, cur, out0),
//@ at loop 1 before
let ghost byte = value as nat;
let ghost d0 = cur;
let ghost want = le_val(d0, 58) * 256 + byte;
let ghost mut nd = Seq::<u8>::empty();
proof {
    let k = it0.index() as int;
    lemma_be_take(inp, k, 256);
    lemma_be_mono(inp, k + 1, 256);
    assert(d0.take(0) =~= Seq::<u8>::empty());
    assert(carry * 1 == carry) by(nonlinear_arith);
    assert(0 * 256 == 0) by(nonlinear_arith);
}
//@ loop 1
invariant
    it1.seq().len() == d0.len(), nd.len() == it1.index(), digits_ok(d0, 58),
    forall|i: int| it1.index() <= i < d0.len() ==> *(#[trigger] it1.seq()[i]) == d0[i],
    forall|i: int| 0 <= i < it1.index() ==> *final(#[trigger] it1.seq()[i]) == nd[i],
    digits_ok(nd, 58), carry <= 255,
    le_val(nd, 58) + carry as nat * pw(58, nd.len()) == le_val(d0.take(nd.len() as int), 58) * 256 + byte,
//@ at loop 1 start
let ghost c0 = carry as nat;
let ghost dg = *value;
proof {
    assert(dg == d0[it1.index() as int]);
    assert((dg as usize) << 8 == (dg as usize) * 256) by(bit_vector);
}
//@ at loop 1 end
proof {
    let n = nd.len();
    lemma_le_take(d0, n as int, 58);
    lemma_muladd(le_val(nd, 58), c0, le_val(d0.take(n as int), 58), 256, byte, dg as nat, pw(58, n), 58);
    lemma_le_push(nd, *value, 58);
    nd = nd.push(*value);
}
//@ at loop 1 after
proof {
    assert(d0.take(nd.len() as int) =~= d0);
    assert(holds(output1@, nd, out0));
    if carry == 0 && nd.len() > 0 {
        assert(0 * pw(58, nd.len()) == 0) by(nonlinear_arith);
        lemma_le_min(d0, 58);
        lemma_top_digit(nd, 58);
    }
    cur = nd;
}
//@ loop 2
invariant
    inp == input.xb(), val == be_val(inp, 256), out0 == (*old(output)).xbm(),
   
    index == cur.len(), index <= output1@.len(), carry <= 255, out0.len() == output1@.len(),
    digits_ok(cur, 58),
    carry == 0 ==> canonical(cur, 58),
    le_val(cur, 58) + carry as nat * pw(58, index as nat) == want,
    holds(output1@, cur, out0),
    want <= val,
decreases carry,
//@ at loop 2 start
let ghost c1 = carry as nat;
proof {
    assert(output1.len() == output1@.len());
    if index == output1@.len() {
        let p = pw(58, index as nat);
        assert(c1 * p >= p) by(nonlinear_arith) requires c1 >= 1;
        lemma_digits_len_min(val, 58, index as nat);
    }
}
//@ at loop 2 end
proof {
    let d = (c1 % 58) as u8;
    lemma_carry(le_val(cur, 58), c1, pw(58, cur.len()), 58);
    lemma_le_push(cur, d, 58);
    cur = cur.push(d);
}
//@ at loop 2 after
proof { assert(0 * pw(58, index as nat) == 0) by(nonlinear_arith); }
//@ at loop 0 after
let ghost le = cur;
proof {
    assert(inp.take(inp.len() as int) =~= inp);
    lemma_canonical(le, 58);
    lemma_leading_props(inp, 0u8);
}
//@ loop 3
invariant_except_break
    index == le.len() + it3.index(),
invariant
    inp == input.xb(), out0 == (*old(output)).xbm(),
   
    it3.seq().len() == inp.len(), forall|i: int| 0 <= i < inp.len() ==> *(#[trigger] it3.seq()[i]) == inp[i],
    output1@.len() == out0.len(), nz == leading(inp, 0u8), le == le_digits(be_val(inp, 256), 58),
    nz <= inp.len(), forall|i: int| 0 <= i < nz ==> inp[i] == 0, nz < inp.len() ==> inp[nz as int] != 0,
    le.len() <= index <= output1@.len(), index - le.len() <= nz,
    holds(output1@, le + zeros((index - le.len()) as nat), out0),
ensures
    nz == index - le.len(),
//@ at loop 3 start
let ghost idx = index;
proof { assert(output1.len() == output1@.len()); }
//@ at loop 3 end
proof {
    assert(le + zeros((index - le.len()) as nat) =~= (le + zeros((idx - le.len()) as nat)).push(0u8));
}
//@ at loop 4 before
let ghost dg = le + zeros(nz);
let ghost chars = self.alphabet.chars();
proof { lemma_digits(be_val(inp, 256), 58); }
//@ loop 4
invariant
    self.wf(), chars == self.alphabet.chars(), digits_ok(dg, 58),
    it4.seq().len() == dg.len(),
    forall|i: int| it4.index() <= i < dg.len() ==> *(#[trigger] it4.seq()[i]) == dg[i],
    forall|i: int| 0 <= i < it4.index() ==> *final(#[trigger] it4.seq()[i]) == chars[dg[i] as int],
//@ at loop 4 start
proof { assert(*value == dg[it4.index() as int]); }
//@ at loop 4 after
let ghost o4 = output1@;
proof {
    assert(holds(o4, to_chars(dg, chars), out0));
}
//@ at end
proof {
    assert(dg.reverse() =~= rebase(inp, 256, 58));
    assert(to_chars(dg, chars).reverse() =~= to_chars(dg.reverse(), chars));
    lemma_reversed(o4, output1@, to_chars(dg, chars), out0);
}
//@ fn Encoder::encode
//@ ret r
requires self.wf(), input.xb().len() * 8 <= usize::MAX,
ensures utf8(r@) == b58_text(input.xb(), self.alphabet.chars()),
//@ at start
let ghost inp = input.xb();
proof { lemma_rebase_58_len(inp); }
//@ at end
proof {
    assert(output@ =~= b58_text(inp, self.alphabet.chars()));
    lemma_rebase_inverse(inp, 256, 58);
    assert forall|i: int| 0 <= i < output@.len() implies output@[i] < 128 by {
        let d = rebase(inp, 256, 58);
        assert(d[i] < 58);
        assert(self.alphabet.encode@[d[i] as int] < 128);
    }
}
//@ fn Encoder::default
//@ ret r
ensures r.wf(), r.alphabet.chars() == btc58(),
//@ fn ENCODER
ensures ENCODER.wf(), ENCODER.alphabet.chars() == btc58(),
//@ fn encode
//@ ret r
requires input.xb().len() * 8 <= usize::MAX,
ensures utf8(r@) == b58(input.xb()),
//@ fn encode_into
//@ ret r
ensures
    r is Ok <==> rebase(input.xb(), 256, 58).len() <= (*old(output)).xbm().len(),
    r matches Ok(n) ==> n == b58(input.xb()).len() && (*final(output)).xbm() == b58(input.xb()) + (*old(output)).xbm().skip(n as int),
    r is Ok ==> (*final(output)).xbm().len() == (*old(output)).xbm().len(),
