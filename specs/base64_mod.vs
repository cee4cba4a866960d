//@ file base64/mod.rs
//@ top
use crate::base_common::alphabet::*;
use crate::base_binary::{is_text, is_bytes, digits_of};
use crate::nums::*;
/// the standard alphabet of RFC 4648
pub open spec fn std64() -> Seq<u8> {
    seq![65u8, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90,
         97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122,
         48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 43, 47]
}
/// RFC 4648 Base64 text
pub open spec fn b64(t: Seq<u8>, s: Seq<u8>) -> bool { is_text(t, s, std64()) }
pub proof fn lemma_std64()
    ensures usable(std64()), std64().len() == 64, !in_chars(std64(), 0x3d),
{
    assert(distinct(std64(), 64)) by(compute_only);
    lemma_distinct(std64(), 64);
    assert(fresh(std64(), 0x3d, 64)) by(compute_only);
    lemma_fresh(std64(), 0x3d, 64);
}
/// decoding the text of a byte string can only give that byte string back, and does not fail
pub proof fn lemma_b64_inverse(t: Seq<u8>, s: Seq<u8>, a: Alphabet<64>)
    requires a.wf(), a.chars() == std64(), b64(t, s),
    ensures
        crate::base_binary::over(t, std64()), is_bytes(s, digits_of(t, std64())),
        forall|o: Seq<u8>| is_bytes(o, digits_of(t, std64())) ==> o == s,
        be_val(digits_of(t, std64()), 64) % pw(2, crate::base_binary::left(crate::base_binary::strip(t).len())) == 0,
{
    lemma_std64();
    crate::base_binary::lemma_inverse(t, s, a);
    let d = digits_of(t, std64());
    let p = pw(2, crate::base_binary::left(d.len()));
    lemma_pw_pos(2, crate::base_binary::left(d.len()));
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(be_val(s, 256) as int, p as int);
}
//@ fn ALPHABET
ensures ALPHABET.wf(), ALPHABET.chars() == std64(),
//@ at start
proof {
    lemma_std64();
    assert forall|s: Seq<u8>| s.len() == 64 && (forall|i: int| 0 <= i < 64 ==> s[i] == std64()[i]) implies #[trigger] usable(s) && s == std64() by {
        assert(s =~= std64());
    }
}
