//@ file base64/encode.rs
//@ top
use super::*;
use crate::base_binary::{is_text, padded, ndigits};
broadcast use crate::shim::shim_axioms;
//@ impl Encoder
pub open spec fn wf(&self) -> bool { self.encoder.wf() }
pub open spec fn chars(&self) -> Seq<u8> { self.encoder.alphabet.chars() }
//@ fn Encoder::new
//@ ret r
requires alphabet.wf(),
ensures r.wf(), r.chars() == alphabet.chars(),
//@ fn Encoder::encode_into
//@ ret r
requires self.wf(), input.xb().len() <= 0x0400_0000_0000_0000,
ensures
    r is Ok <==> padded(ndigits(input.xb().len())) <= (*old(output)).xbm().len(),
    r matches Ok(n) ==> n == padded(ndigits(input.xb().len()))
        && is_text((*final(output)).xbm().take(n as int), input.xb(), self.chars())
        && (*final(output)).xbm().skip(n as int) == (*old(output)).xbm().skip(n as int)
        && (*final(output)).xbm().len() == (*old(output)).xbm().len(),
//@ fn Encoder::encode
//@ ret r
requires self.wf(), input.xb().len() <= 0x0400_0000_0000_0000,
ensures is_text(utf8(r@), input.xb(), self.chars()),
//@ fn Encoder::default
//@ ret r
ensures r.wf(), r.chars() == std64(),
//@ fn ENCODER
ensures ENCODER.wf(), ENCODER.chars() == std64(),
//@ fn encode
//@ ret r
requires input.xb().len() <= 0x0400_0000_0000_0000,
ensures b64(utf8(r@), input.xb()),
//@ fn encode_into
//@ ret r
requires input.xb().len() <= 0x0400_0000_0000_0000,
ensures
    r is Ok <==> padded(ndigits(input.xb().len())) <= (*old(output)).xbm().len(),
    r matches Ok(n) ==> n == padded(ndigits(input.xb().len()))
        && b64((*final(output)).xbm().take(n as int), input.xb())
        && (*final(output)).xbm().skip(n as int) == (*old(output)).xbm().skip(n as int)
        && (*final(output)).xbm().len() == (*old(output)).xbm().len(),
