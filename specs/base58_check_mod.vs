//@ file base58_check/mod.rs
//@ top
use crate::base58::{btc58, over, b58, b58_text, b58_bytes, to_chars, to_digits};
use crate::nums::*;
/// the first four bytes of the double SHA-256
pub open spec fn check4(s: Seq<u8>) -> Seq<u8> { sha256d(s).take(4) }
/// data with its checksum
pub open spec fn with_check(s: Seq<u8>) -> Seq<u8> { s + check4(s) }
/// ends with the checksum of what precedes it
pub open spec fn checked(b: Seq<u8>) -> bool { b.len() >= 4 && b.skip(b.len() - 4) == check4(b.take(b.len() - 4)) }
pub proof fn lemma_checked(s: Seq<u8>)
    ensures checked(with_check(s)), with_check(s).take(with_check(s).len() - 4) == s,
{
    broadcast use crate::shim::shim_axioms;
    let b = with_check(s);
    assert(b.take(b.len() - 4) =~= s);
    assert(b.skip(b.len() - 4) =~= check4(s));
}
