//@ file address.rs
//@ known key Address
//@ top
use crate::base58::{lemma_b58_inverse, lemma_b58_canonical, btc58, over, b58, b58_text, b58_bytes, to_chars, to_digits};
use crate::base58_check::{with_check, checked, check4, lemma_checked};
use crate::base58_check::decode::accepts;
broadcast use crate::shim::shim_axioms;
impl From<base58_check::decode::Error> for XError {
    #[verifier::external_body]
    fn from(e: base58_check::decode::Error) -> XError { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<base58_check::decode::Error> for XError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: base58_check::decode::Error) -> XError { arbitrary() }
}
/// DUP HASH160 <20 bytes> EQUALVERIFY CHECKSIG
pub open spec fn p2pkh(h: Seq<u8>) -> Seq<u8> { seq![0x76u8, 0xa9, 0x14] + h + seq![0x88u8, 0xac] }
/// HASH160 <20 bytes> EQUAL
pub open spec fn p2sh(h: Seq<u8>) -> Seq<u8> { seq![0xa9u8, 0x14] + h + seq![0x87u8] }
pub open spec fn is_p2pkh(s: Seq<u8>) -> bool { s.len() == 25 && s[0] == 0x76 && s[1] == 0xa9 && s[2] == 0x14 && s[23] == 0x88 && s[24] == 0xac }
pub open spec fn is_p2sh(s: Seq<u8>) -> bool { s.len() == 23 && s[0] == 0xa9 && s[1] == 0x14 && s[22] == 0x87 }
/// the script that pays to an address
pub open spec fn pays(s: Seq<u8>, a: Address) -> bool {
    match a { Address::P2PKH(h) => s == p2pkh(h@), Address::P2SH(h) => s == p2sh(h@) }
}
/// the stored form of an address
pub open spec fn stored(a: Address) -> Seq<u8> {
    match a { Address::P2PKH(h) => seq![0u8] + h@, Address::P2SH(h) => seq![5u8] + h@ }
}
/// the stored form of some address
pub open spec fn is_stored(s: Seq<u8>) -> bool { s.len() == 21 && (s[0] == 0 || s[0] == 5) }
/// the text form of an address
pub open spec fn addr_text(a: Address) -> Seq<u8> { b58(with_check(stored(a))) }
/// the text of some address: 25 bytes, version 0 or 5, right checksum
pub open spec fn is_addr_text(t: Seq<u8>) -> bool {
    over(t, btc58()) && b58_bytes(t, btc58()).len() == 25 && checked(b58_bytes(t, btc58())) && is_stored(b58_bytes(t, btc58()).take(21))
}
/// the address a script pays to, if any
pub open spec fn script_addr(s: Seq<u8>) -> Option<Address> {
    if exists|a: Address| pays(s, a) { Some(choose|a: Address| pays(s, a)) } else { None }
}
pub proof fn lemma_pays_unique(s: Seq<u8>, a: Address, b: Address)
    requires pays(s, a), pays(s, b),
    ensures a == b,
{
    match (a, b) {
        (Address::P2PKH(h), Address::P2PKH(g)) => { assert(h@ =~= s.subrange(3, 23)); assert(g@ =~= s.subrange(3, 23)); assert(arr::<20>(h@) == h && arr::<20>(g@) == g); },
        (Address::P2SH(h), Address::P2SH(g)) => { assert(h@ =~= s.subrange(2, 22)); assert(g@ =~= s.subrange(2, 22)); assert(arr::<20>(h@) == h && arr::<20>(g@) == g); },
        (Address::P2PKH(h), Address::P2SH(g)) => { assert(s.len() == 25); assert(s.len() == 23); },
        (Address::P2SH(h), Address::P2PKH(g)) => { assert(s.len() == 25); assert(s.len() == 23); },
    }
}
pub proof fn lemma_stored_unique(a: Address, b: Address)
    requires stored(a) == stored(b),
    ensures a == b, is_stored(stored(a)),
{
    let (s, t) = (stored(a), stored(b));
    assert(s[0] == t[0]);
    match (a, b) {
        (Address::P2PKH(h), Address::P2PKH(g)) => { assert(h@ =~= s.skip(1)); assert(g@ =~= t.skip(1)); assert(arr::<20>(h@) == h && arr::<20>(g@) == g); },
        (Address::P2SH(h), Address::P2SH(g)) => { assert(h@ =~= s.skip(1)); assert(g@ =~= t.skip(1)); assert(arr::<20>(h@) == h && arr::<20>(g@) == g); },
        _ => {},
    }
}
/// the text of an address is accepted and stands for that address and no other
pub proof fn lemma_addr_text(a: Address, al: crate::base_common::Alphabet<58>)
    requires al.wf(), al.chars() == btc58(),
    ensures
        is_addr_text(addr_text(a)),
        b58_bytes(addr_text(a), btc58()).take(21) == stored(a),
        forall|b: Address| stored(b) == b58_bytes(addr_text(a), btc58()).take(21) ==> b == a,
{
    lemma_b58_inverse(with_check(stored(a)), al);
    lemma_checked(stored(a));
    lemma_stored_unique(a, a);
    assert forall|b: Address| stored(b) == stored(a) implies b == a by { lemma_stored_unique(b, a); }
}
/// the only accepted texts are those of addresses
pub proof fn lemma_only_addr_texts(t: Seq<u8>, a: Address, al: crate::base_common::Alphabet<58>)
    requires al.wf(), al.chars() == btc58(), is_addr_text(t), stored(a) == b58_bytes(t, btc58()).take(21),
    ensures t == addr_text(a),
{
    let d = b58_bytes(t, btc58());
    lemma_b58_canonical(t, al);
    assert(d =~= d.take(21) + d.skip(21));
}
//@ fn Address::from_script
//@ ret r
ensures
    r is Ok <==> exists|a: Address| pays(script@, a),
    r matches Ok(a) ==> pays(script@, a),
    r is Ok <==> script_addr(script@) is Some,
    r matches Ok(a) ==> script_addr(script@) == Some(a),
//@ at start
proof {
    if exists|a: Address| pays(script@, a) {
        let a = choose|a: Address| pays(script@, a);
        assert forall|b: Address| pays(script@, b) implies b == a by { lemma_pays_unique(script@, a, b); }
    }
    if is_p2pkh(script@) { assert(script@ =~= p2pkh(script@.subrange(3, 23))); assert(pays(script@, Address::P2PKH(arr(script@.subrange(3, 23))))); }
    if is_p2sh(script@) { assert(script@ =~= p2sh(script@.subrange(2, 22))); assert(pays(script@, Address::P2SH(arr(script@.subrange(2, 22))))); }
}
//@ fn Address::from_slice
//@ ret r
ensures
    r is Ok <==> is_stored(buffer.xb()),
    r matches Ok(a) ==> stored(a) == buffer.xb(),
//@ at start
proof {
    let b = buffer.xb();
    if b.len() == 21 { assert(b =~= seq![b[0]] + b.subrange(1, 21)); }
}
//@ fn Address::from_string
//@ ret r
ensures
    r is Ok <==> is_addr_text(utf8(string@)),
    r matches Ok(a) ==> stored(a) == b58_bytes(utf8(string@), btc58()).take(21),
//@ fn Address::to_vec
//@ ret r
ensures r@ == stored(*self),
//@ fn Address::to_string
//@ ret r
ensures utf8(r@) == addr_text(*self),
