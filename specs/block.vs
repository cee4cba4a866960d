//@ file block.rs
//@ top
/// all of them can be read
pub open spec fn all_ok<B: BlockTrait>(b: Seq<B>) -> bool { forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).s_ok() }
use crate::hashing_buffer_reader::*;
use crate::transaction::*;
broadcast use crate::shim::shim_axioms;

/// n transactions one after another
pub open spec fn txs_end(s: Seq<u8>, p: int, n: int) -> int decreases n { if n <= 0 { p } else { tx_end(s, txs_end(s, p, n - 1)) } }
pub open spec fn txs_ok(s: Seq<u8>, p: int, n: int) -> bool decreases n { if n <= 0 { n == 0 && 0 <= p <= s.len() } else { txs_ok(s, p, n - 1) && tx_ok(s, txs_end(s, p, n - 1)) } }
/// `v` are the n transactions at p, in order
pub open spec fn is_txs(v: Seq<Transaction>, s: Seq<u8>, p: int, n: int) -> bool {
    v.len() == n && forall|k: int| 0 <= k < n ==> is_tx(#[trigger] v[k], s, txs_end(s, p, k))
}
/// what follows the 80-byte header
pub open spec fn tail(b: Seq<u8>) -> Seq<u8> { cut(b, 80, b.len() as int) }
pub open spec fn block_txs_at(b: Seq<u8>) -> int { vi_end(tail(b), 0) }
pub open spec fn block_count(b: Seq<u8>) -> int { vi(tail(b), 0) as int }
/// a well-formed block: header, count, that many transactions (whatever follows)
pub open spec fn block_ok(b: Seq<u8>) -> bool {
    b.len() > 80 && vi_ok(tail(b), 0) && txs_ok(tail(b), block_txs_at(b), block_count(b))
}
pub open spec fn is_header(h: BlockHeader, b: Seq<u8>) -> bool {
    h.hash@ == sha256d(cut(b, 0, 80)) && h.previous_block_hash@ == cut(b, 4, 36)
}
pub proof fn lemma_txs(s: Seq<u8>, p: int, n: int, k: int)
    requires txs_ok(s, p, n), 0 <= k <= n,
    ensures txs_ok(s, p, k), k < n ==> tx_ok(s, txs_end(s, p, k)), p <= txs_end(s, p, k) <= txs_end(s, p, n) <= s.len(),
    decreases n,
{
    if k < n { lemma_txs(s, p, n - 1, k); } else if n > 0 { lemma_txs(s, p, n - 1, k - 1); }
    if n > 0 { lemma_txs(s, p, n - 1, n - 1); lemma_tx_bounds(s, txs_end(s, p, n - 1)); }
}
//@ fn BlockHeader::from_buffer
//@ ret r
requires buffer@.len() >= 80,
ensures is_header(r, buffer@),
//@ at end
proof {
    assert(Seq::<u8>::empty() + cut(buffer@, 0, 80) =~= cut(buffer@, 0, 80));
    assert(cut(cut(buffer@, 0, 80), 4, 36) =~= cut(buffer@, 4, 36));
}
//@ fn iterate_transactions
//@ ret r
requires block_ok(buffer@),
ensures is_txs(r@, tail(buffer@), block_txs_at(buffer@), block_count(buffer@)),
//@ at start
assert(buffer.len() == buffer@.len());
let ghost s = tail(buffer@);
let ghost p = block_txs_at(buffer@);
//@ loop 0
invariant
    txs_ok(s, p, count as int), it0.seq().len() == count,
    reader.wf(), reader.data() == s, reader.pos() == txs_end(s, p, it0.index() as int),
    is_txs(__vx_trace@, s, p, it0.index() as int),
//@ at loop 0 start
proof { lemma_txs(s, p, count as int, it0.index() as int); }
//@ trait BlockTrait
spec fn s_header(&self) -> BlockHeader;
spec fn s_height(&self) -> usize;
spec fn s_txs(&self) -> Seq<Transaction>;
/// its transactions can be had
spec fn s_ok(&self) -> bool;
//@ fn BlockTrait::header
//@ ret r
ensures *r == self.s_header(),
//@ fn BlockTrait::hash
//@ ret r
ensures r == self.s_header().hash,
//@ fn BlockTrait::previous_block_hash
//@ ret r
ensures r == self.s_header().previous_block_hash,
//@ fn BlockTrait::height
//@ ret r
ensures r == self.s_height(),
//@ fn BlockTrait::transactions
//@ ret r
requires self.s_ok(),
ensures r@ == self.s_txs(),
//@ impl Block as BlockTrait
open spec fn s_header(&self) -> BlockHeader { self.header }
open spec fn s_height(&self) -> usize { self.height }
open spec fn s_txs(&self) -> Seq<Transaction> { self.transactions@ }
open spec fn s_ok(&self) -> bool { true }
//@ fn Block as BlockTrait::transactions
//@ loop 0
invariant __vx_trace@ == self.transactions@.take(it0.index() as int), it0.seq().len() == self.transactions@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *#[trigger] it0.seq()[i] == self.transactions@[i],
//@ at end
proof { assert(self.transactions@.take(self.transactions@.len() as int) =~= self.transactions@); }
//@ fn Block::new
//@ ret r
requires block_ok(buffer@),
ensures
    r.s_height() == height, is_header(r.s_header(), buffer@),
    is_txs(r.s_txs(), tail(buffer@), block_txs_at(buffer@), block_count(buffer@)),
//@ loop 0
invariant
    is_txs(it0.seq(), tail(buffer@), block_txs_at(buffer@), block_count(buffer@)),
    transactions@.len() == it0.index(), forall|k: int| 0 <= k < it0.index() ==> #[trigger] transactions@[k] == it0.seq()[k],
