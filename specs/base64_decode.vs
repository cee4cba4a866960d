//@ file base64/decode.rs
//@ top
use super::*;
use crate::nums::*;
use crate::base_binary::{over, strip, whole, left, is_bytes, digits_of};
use crate::base_binary::decode::first_bad;
broadcast use crate::shim::shim_axioms;
/// no stray bits after the last whole byte
pub open spec fn clean(t: Seq<u8>, chars: Seq<u8>) -> bool { over(t, chars) ==> be_val(digits_of(t, chars), 64) % pw(2, left(strip(t).len())) == 0 }
//@ impl Decoder
pub open spec fn wf(&self) -> bool { self.decoder.wf() }
pub open spec fn chars(&self) -> Seq<u8> { self.decoder.alphabet.chars() }
//@ fn Decoder::new
//@ ret r
requires alphabet.wf(),
ensures r.wf(), r.chars() == alphabet.chars(),
//@ fn Decoder::decode_into
//@ ret r
requires self.wf(), may_panic() || clean(input.xb(), self.chars()),
ensures
    r matches Ok(n) ==> over(input.xb(), self.chars()) && n == whole(strip(input.xb()).len())
        && is_bytes((*final(output)).xbm().take(n as int), digits_of(input.xb(), self.chars()))
        && (*final(output)).xbm().skip(n as int) == (*old(output)).xbm().skip(n as int)
        && (*final(output)).xbm().len() == (*old(output)).xbm().len()
        && n <= (*old(output)).xbm().len(),
    r matches Err(e) ==> e == Error::BufferTooSmall || (!over(input.xb(), self.chars()) && first_bad(input.xb(), self.chars(), e)),
    r matches Err(e) ==> e == Error::BufferTooSmall ==> whole(strip(input.xb()).len()) > (*old(output)).xbm().len(),
//@ fn Decoder::decode
//@ ret r
requires self.wf(), input.xb().len() <= 0x0400_0000_0000_0000, may_panic() || clean(input.xb(), self.chars()),
ensures
    r matches Ok(v) ==> over(input.xb(), self.chars()) && is_bytes(v@, digits_of(input.xb(), self.chars())),
    r matches Err(e) ==> !over(input.xb(), self.chars()) && first_bad(input.xb(), self.chars(), e),
//@ fn Decoder::default
//@ ret r
ensures r.wf(), r.chars() == std64(),
//@ fn DECODER
ensures DECODER.wf(), DECODER.chars() == std64(),
//@ fn decode_into
//@ ret r
requires may_panic() || clean(input.xb(), std64()),
ensures
    r matches Ok(n) ==> over(input.xb(), std64()) && n == whole(strip(input.xb()).len())
        && is_bytes((*final(output)).xbm().take(n as int), digits_of(input.xb(), std64()))
        && (*final(output)).xbm().skip(n as int) == (*old(output)).xbm().skip(n as int)
        && (*final(output)).xbm().len() == (*old(output)).xbm().len()
        && n <= (*old(output)).xbm().len(),
    r matches Err(e) ==> e == Error::BufferTooSmall || (!over(input.xb(), std64()) && first_bad(input.xb(), std64(), e)),
    r matches Err(e) ==> e == Error::BufferTooSmall ==> whole(strip(input.xb()).len()) > (*old(output)).xbm().len(),
//@ fn decode
//@ ret r
requires input.xb().len() <= 0x0400_0000_0000_0000, may_panic() || clean(input.xb(), std64()),
ensures
    r matches Ok(v) ==> over(input.xb(), std64()) && is_bytes(v@, digits_of(input.xb(), std64())),
    r matches Err(e) ==> !over(input.xb(), std64()) && first_bad(input.xb(), std64(), e),
