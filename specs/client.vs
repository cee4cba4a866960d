//@ file client.rs
//@ uses
//@ drop Error as Error
//@ drop Error as Display
//@ drop struct Client
//@ drop Client::new
//@ top
use crate::Transaction;
use crate::serde_json;
use crate::serde_json::Value;
use crate::{hex, reverse_hex};
use crate::hex::{all_hex, unhex};
use crate::hashing_buffer_reader::cut;
use crate::block::*;
use crate::transaction::{is_tx, tx_ok};
broadcast use crate::shim::shim_axioms;
// ---- the node
#[verifier::external_body]
pub struct Client { opaque: () }
/// the node answered this question so (`b` is Other when it has one parameter): a result, or an error with this code (assumed; at whatever time it was)
pub uninterp spec fn answered(method: Seq<char>, a: J, b: J, r: Result<J, int>) -> bool;
/// every block the node has at this height has this parent
pub uninterp spec fn node_keeps(height: nat, parent: [u8; 32]) -> bool;
/// permission to ask the node for this transaction
pub uninterp spec fn may_ask(hash: [u8; 32]) -> bool;
/// these are the bytes whose hex digits the text is
pub open spec fn spells(t: Seq<u8>, b: Seq<u8>) -> bool { t.len() % 2 == 0 && all_hex(t) && unhex(t) == b }
/// the same, last byte first
pub open spec fn names(t: Seq<u8>, b: Seq<u8>) -> bool { t.len() % 2 == 0 && all_hex(t) && unhex(t).reverse() == b }
pub open spec fn name_of(b: Seq<u8>) -> Seq<u8> { hex::hex(b.reverse()) }
// the questions that are asked, and their answers
pub open spec fn hash_answer(height: nat, t: Seq<u8>) -> bool { answered("getblockhash"@, J::Num(height as int), J::Other, Ok(J::Str(t))) }
pub open spec fn block_answer(n: Seq<u8>, t: Seq<u8>) -> bool { answered("getblock"@, J::Str(n), J::Num(0), Ok(J::Str(t))) }
pub open spec fn tx_answer(n: Seq<u8>, t: Seq<u8>) -> bool { answered("getrawtransaction"@, J::Str(n), J::Other, Ok(J::Str(t))) }
pub open spec fn pool_answer(t: Seq<Seq<u8>>) -> bool { answered("getrawmempool"@, J::Bool(false), J::Other, Ok(J::Strs(t))) }
/// the node named this block for this height
pub open spec fn node_hash(height: nat, hash: Seq<u8>) -> bool { exists|t: Seq<u8>| #[trigger] hash_answer(height, t) && names(t, hash) }
/// the node gave these bytes for the block of this name
pub open spec fn node_block(hash: Seq<u8>, bytes: Seq<u8>) -> bool { exists|t: Seq<u8>| #[trigger] block_answer(name_of(hash), t) && spells(t, bytes) }
/// the node had no block at this height
pub open spec fn node_ends(height: nat) -> bool { answered("getblockhash"@, J::Num(height as int), J::Other, Err(-8)) }
/// the node listed these mempool transactions, in this order
pub open spec fn node_pool(hashes: Seq<[u8; 32]>) -> bool { exists|t: Seq<Seq<u8>>| #[trigger] pool_answer(t) && all_named(t, hashes) }
pub open spec fn all_named(t: Seq<Seq<u8>>, hashes: Seq<[u8; 32]>) -> bool { t.len() == hashes.len() && forall|i: int| 0 <= i < t.len() ==> names(#[trigger] t[i], hashes[i]@) }
/// the node gave this transaction for this name
pub open spec fn node_tx(hash: [u8; 32], tx: Transaction) -> bool { exists|t: Seq<u8>| #[trigger] tx_answer(name_of(hash@), t) && is_tx(tx, unhex(t), 0) }
/// the node did not have this transaction
pub open spec fn node_lacks(hash: [u8; 32]) -> bool { answered("getrawtransaction"@, J::Str(name_of(hash@)), J::Other, Err(-5)) }
pub open spec fn block_at(height: nat, hash: Seq<u8>, b: Seq<u8>) -> bool {
    node_hash(height, hash) && block_ok(b) && forall|t: [u8; 32]| #[trigger] node_keeps(height, t) ==> cut(b, 4, 36) == t@
}
/// what a node answers: hex digits, well-formed blocks and transactions, and the two errors that mean it has none
pub open spec fn sensible(method: Seq<char>, a: J, r: Result<J, int>) -> bool {
    if method == "getrawmempool"@ {
        r matches Ok(J::Strs(t)) && (forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).len() == 64 && all_hex(t[i]))
            && forall|i: int, j: int| 0 <= i < j < t.len() ==> unhex(#[trigger] t[i]) != unhex(#[trigger] t[j])
    } else if method == "getrawtransaction"@ {
        match r { Ok(j) => j matches J::Str(t) && t.len() % 2 == 0 && all_hex(t) && tx_ok(unhex(t), 0), Err(c) => c == -5 }
    } else if method == "getblockhash"@ {
        match r { Ok(j) => j matches J::Str(t) && t.len() == 64 && all_hex(t) && a->Num_0 <= u32::MAX, Err(c) => c == -8 }
    } else {
        r matches Ok(J::Str(t)) && t.len() % 2 == 0 && all_hex(t) && block_ok(unhex(t))
            && forall|h: nat, x: Seq<u8>, n: [u8; 32]| #[trigger] node_hash(h, x) && name_of(x) == a->Str_0 && #[trigger] node_keeps(h, n) ==> cut(unhex(t), 4, 36) == n@
    }
}
/// questions that a node understands
pub open spec fn proper(method: Seq<char>, p: Seq<Value>) -> bool {
    ||| method == "getrawmempool"@ && p.len() == 1 && arg(p, 0) == J::Bool(false)
    ||| method == "getblockhash"@ && p.len() == 1 && arg(p, 0) is Num
    ||| method == "getblock"@ && p.len() == 2 && arg(p, 0) is Str && arg(p, 1) == J::Num(0)
    ||| method == "getrawtransaction"@ && p.len() == 1 && exists|h: [u8; 32]| #[trigger] may_ask(h) && arg(p, 0) == J::Str(name_of(h@))
}
pub open spec fn arg(p: Seq<Value>, i: int) -> J { if i < p.len() { p[i].j() } else { J::Other } }
pub proof fn lemma_methods()
    ensures "getrawmempool"@ != "getblockhash"@, "getrawmempool"@ != "getblock"@, "getrawmempool"@ != "getrawtransaction"@, "getblockhash"@ != "getblock"@, "getblockhash"@ != "getrawtransaction"@, "getblock"@ != "getrawtransaction"@,
{
    reveal_strlit("getrawmempool"); reveal_strlit("getblockhash"); reveal_strlit("getblock"); reveal_strlit("getrawtransaction");
    assert("getrawmempool"@.len() == 13 && "getblockhash"@.len() == 12 && "getblock"@.len() == 8 && "getrawtransaction"@.len() == 17);
}
pub proof fn lemma_named_distinct(t: Seq<Seq<u8>>, h: Seq<[u8; 32]>)
    requires all_named(t, h), forall|i: int, j: int| 0 <= i < j < t.len() ==> unhex(#[trigger] t[i]) != unhex(#[trigger] t[j]),
    ensures h.no_duplicates(),
{
    assert forall|i: int, j: int| 0 <= i < h.len() && 0 <= j < h.len() && i != j implies h[i] != h[j] by {
        assert(names(t[i], h[i]@) && names(t[j], h[j]@));
        assert(unhex(t[i]).reverse().reverse() =~= unhex(t[i]));
        assert(unhex(t[j]).reverse().reverse() =~= unhex(t[j]));
        if i < j { assert(unhex(t[i]) != unhex(t[j])); } else { assert(unhex(t[j]) != unhex(t[i])); }
    }
}
pub open spec fn outcome(r: Result<Value, Error>) -> Result<J, int> { match r { Ok(v) => Ok(v.j()), Err(e) => Err(e.code as int) } }
//@ fn Client::request
//@ external
//@ ret r
requires proper(method@, params@),
ensures answered(method@, arg(params@, 0), arg(params@, 1), outcome(r)), sensible(method@, arg(params@, 0), outcome(r)),
//@ fn Client::getrawmempool
//@ ret r
ensures node_pool(r@), r@.no_duplicates(),
//@ at start
proof { lemma_methods(); }
//@ at loop 0 before
let ghost t = result@.map_values(|x: String| utf8(x@));
proof { assert(pool_answer(t)); if t.len() == 0 { assert(t.take(0) =~= t); } }
//@ loop 0
invariant
    it0.seq().len() == result@.len(), forall|i: int| 0 <= i < result@.len() ==> *#[trigger] it0.seq()[i] == result@[i],
    t == result@.map_values(|x: String| utf8(x@)),
    forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).len() == 64 && all_hex(t[i]),
    forall|i: int, j: int| 0 <= i < j < t.len() ==> unhex(#[trigger] t[i]) != unhex(#[trigger] t[j]),
    all_named(t.take(it0.index() as int), __vx_v1@), it0.index() == it0.seq().len() ==> all_named(t, __vx_v1@) && __vx_v1@.no_duplicates(),
//@ at loop 0 start
let ghost k = it0.index() as int;
proof { assert(*hash == result@[k] && t[k] == utf8(hash@)); }
//@ at loop 0 end
proof {
    assert(unhex(t[k]).len() == 32);
    assert(__vx_v1@[k]@ =~= unhex(t[k]).reverse());
    if k + 1 == t.len() { assert(t.take(k + 1) =~= t); lemma_named_distinct(t, __vx_v1@); }
}
//@ fn Client::getrawtransaction
//@ ret r
requires may_ask(*hash),
ensures r matches Some(t) ==> node_tx(*hash, t), r is None ==> node_lacks(*hash),
//@ at start
proof { lemma_methods(); }
//@ at let buffer
proof { assert(tx_answer(name_of(hash@), utf8(result@))); }
//@ fn Client::getblockhash
//@ ret r
ensures
    r matches Some(h) ==> node_hash(height as nat, h@) && h@.len() == 32 && height <= u32::MAX,
    r is None ==> node_ends(height as nat),
//@ at start
proof { lemma_methods(); }
//@ at let hash
proof { assert(hash_answer(height as nat, utf8(hash@))); }
//@ fn Client::getblock
//@ ret r
requires hash.xb().len() == 32,
ensures
    r is Some,
    r matches Some(b) ==> node_block(hash.xb(), b@) && block_ok(b@),
    r matches Some(b) ==> forall|h: nat, t: [u8; 32]| #[trigger] node_hash(h, hash.xb()) && #[trigger] node_keeps(h, t) ==> cut(b@, 4, 36) == t@,
//@ at start
proof { lemma_methods(); }
//@ at let result#2
proof { assert(block_answer(name_of(hash.xb()), utf8(result@))); }
