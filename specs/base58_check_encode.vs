//@ file base58_check/encode.rs
//@ top
use super::{check4, with_check, checked, lemma_checked};
use crate::base58::{btc58, over, b58, b58_text, b58_bytes, to_chars, to_digits};
use crate::nums::*;
broadcast use crate::shim::shim_axioms;
//@ impl Encoder
pub open spec fn wf(&self) -> bool { self.encoder.wf() }
pub open spec fn chars(&self) -> Seq<u8> { self.encoder.alphabet.chars() }
//@ fn Encoder::new
//@ ret r
requires alphabet.wf(),
ensures r.wf(), r.chars() == alphabet.chars(),
//@ fn Encoder::extend_input
//@ ret r
ensures r@ == with_check(input.xb()),
//@ fn Encoder::encode
//@ ret r
requires self.wf(), input.xb().len() <= 0x0400_0000_0000_0000,
ensures utf8(r@) == b58_text(with_check(input.xb()), self.chars()),
//@ fn Encoder::encode_into
//@ ret r
requires self.wf(), input.xb().len() <= 0x0400_0000_0000_0000,
ensures
    r is Ok <==> b58_text(with_check(input.xb()), self.chars()).len() <= (*old(output)).xbm().len(),
    r matches Ok(n) ==> n == b58_text(with_check(input.xb()), self.chars()).len()
        && (*final(output)).xbm() == b58_text(with_check(input.xb()), self.chars()) + (*old(output)).xbm().skip(n as int),
//@ fn Encoder::default
//@ ret r
ensures r.wf(), r.chars() == btc58(),
//@ fn ENCODER
ensures ENCODER.wf(), ENCODER.chars() == btc58(),
//@ fn encode
//@ ret r
requires input.xb().len() <= 0x0400_0000_0000_0000,
ensures utf8(r@) == b58(with_check(input.xb())),
//@ fn encode_into
//@ ret r
requires input.xb().len() <= 0x0400_0000_0000_0000,
ensures
    r is Ok <==> b58(with_check(input.xb())).len() <= (*old(output)).xbm().len(),
    r matches Ok(n) ==> n == b58(with_check(input.xb())).len()
        && (*final(output)).xbm() == b58(with_check(input.xb())) + (*old(output)).xbm().skip(n as int),
