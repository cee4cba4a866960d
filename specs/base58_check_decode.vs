//@ file base58_check/decode.rs
//@ top
use super::{check4, with_check, checked, lemma_checked};
use crate::base58::{btc58, over, b58, b58_text, b58_bytes, to_chars, to_digits};
use crate::nums::*;
broadcast use crate::shim::shim_axioms;
impl vstd::std_specs::convert::FromSpecImpl<base58::decode::Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: base58::decode::Error) -> Error {
        match e {
            base58::decode::Error::BufferTooSmall => Error::BufferTooSmall,
            base58::decode::Error::InvalidCharacter { character, index } => Error::InvalidCharacter { character, index },
            base58::decode::Error::NonAsciiCharacter { character, index } => Error::NonAsciiCharacter { character, index },
        }
    }
}
/// the text is the Base58 of some data followed by its checksum
pub open spec fn accepts(t: Seq<u8>, chars: Seq<u8>) -> bool { over(t, chars) && checked(b58_bytes(t, chars)) }
//@ impl Decoder
pub open spec fn wf(&self) -> bool { self.decoder.wf() }
pub open spec fn chars(&self) -> Seq<u8> { self.decoder.alphabet.chars() }
//@ fn Error as From<base58::decode::Error>::from
//@ fn Decoder::new
//@ ret r
requires alphabet.wf(),
ensures r.wf(), r.chars() == alphabet.chars(),
//@ fn Decoder::decode_into
//@ ret r
requires self.wf(),
ensures
    r is Ok <==> accepts(input.xb(), self.chars()) && b58_bytes(input.xb(), self.chars()).len() <= (*old(output)).xbm().len(),
    r matches Ok(n) ==> n + 4 == b58_bytes(input.xb(), self.chars()).len()
        && (*final(output)).xbm().len() == (*old(output)).xbm().len()
        && (*final(output)).xbm().take(n as int) == b58_bytes(input.xb(), self.chars()).take(n as int),
    r == Err::<usize, Error>(Error::BufferTooSmall) ==> !over(input.xb(), self.chars()) || b58_bytes(input.xb(), self.chars()).len() > (*old(output)).xbm().len(),
//@ at call verify_checksum before
proof {
    let d = b58_bytes(input.xb(), self.chars());
    assert(output.xbm().take(len as int) =~= d);
}
//@ at end
proof {
    let d = b58_bytes(input.xb(), self.chars());
    assert(output.xbm().take(len - 4) =~= d.take(len - 4));
}
//@ fn Decoder::decode
//@ ret r
requires self.wf(),
ensures
    r is Ok <==> accepts(input.xb(), self.chars()),
    r matches Ok(v) ==> v@ == b58_bytes(input.xb(), self.chars()).take(b58_bytes(input.xb(), self.chars()).len() - 4),
//@ at start
proof { if over(input.xb(), self.chars()) { crate::base58::decode::lemma_room(input.xb(), *self.decoder.alphabet); } }
//@ fn Decoder::default
//@ ret r
ensures r.wf(), r.chars() == btc58(),
//@ fn DECODER
ensures DECODER.wf(), DECODER.chars() == btc58(),
//@ fn verify_checksum
//@ ret r
ensures r is Ok <==> checked(buffer@), r != Err::<(), Error>(Error::BufferTooSmall),
//@ at let expected_checksum
proof {
    assert(checksum@ =~= buffer@.skip(buffer@.len() - 4));
    assert(buffer@.take(buffer@.len() - 4) =~= buffer@.subrange(0, buffer@.len() - 4));
    assert(expected_checksum@.subrange(0, 4) =~= expected_checksum@);
}
//@ fn decode
//@ ret r
ensures
    r is Ok <==> accepts(input.xb(), btc58()),
    r matches Ok(v) ==> v@ == b58_bytes(input.xb(), btc58()).take(b58_bytes(input.xb(), btc58()).len() - 4),
//@ fn decode_into
//@ ret r
ensures
    r is Ok <==> accepts(input.xb(), btc58()) && b58_bytes(input.xb(), btc58()).len() <= (*old(output)).xbm().len(),
    r matches Ok(n) ==> n + 4 == b58_bytes(input.xb(), btc58()).len()
        && (*final(output)).xbm().len() == (*old(output)).xbm().len()
        && (*final(output)).xbm().take(n as int) == b58_bytes(input.xb(), btc58()).take(n as int),
    r == Err::<usize, Error>(Error::BufferTooSmall) ==> !over(input.xb(), btc58()) || b58_bytes(input.xb(), btc58()).len() > (*old(output)).xbm().len(),
