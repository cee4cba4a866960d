//@ file reverse_hex.rs
//@ top
use vstd::std_specs::iter::*;
use crate::hex::*;
broadcast use crate::shim::shim_axioms;
/// decoding inverts encoding
pub proof fn lemma_reverse_hex_inverse(s: Seq<u8>)
    ensures all_hex(hex(s.reverse())), unhex(hex(s.reverse())).reverse() == s, hex(s.reverse()).len() % 2 == 0,
{
    lemma_hex_inverse(s.reverse());
    assert(s.reverse().reverse() =~= s);
}
//@ fn decode
//@ ret r
ensures decoded_vec(input.xb(), unhex(input.xb()).reverse(), r),
//@ fn decode_into
//@ ret r
ensures
    decoded(input.xb(), (*old(output)).xbm().len(), r),
    r matches Ok(n) ==> (*final(output)).xbm() == unhex(input.xb()).reverse() + (*old(output)).xbm().skip(n as int),
//@ fn encode
//@ ret r
requires input.xb().len() * 2 <= usize::MAX,
ensures utf8(r@) == hex(input.xb().reverse()),
