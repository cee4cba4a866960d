//@ file last_blocks.rs
//@ known Client
//@ drop use reverse_hex
//@ top
use std::collections::{HashMap, VecDeque};
broadcast use {crate::shim::shim_axioms, vstd::std_specs::hash::group_hash_axioms};
use crate::client::*;
use crate::block::*;
use crate::BlockHeader;
use crate::store::store::*;
use crate::store::transaction_store::*;
use crate::store::transaction_store_backend::*;
use crate::store::transaction_store_backend_trait::*;
// ---- recent blocks
/// what the next block has to name as its parent
pub open spec fn tip(h: Seq<BlockHeader>, b: Seq<Block>) -> [u8; 32] { if b.len() == 0 { h.last().hash } else { b.last().s_header().hash } }
/// the blocks continue the stored chain
pub open spec fn continues(h: Seq<BlockHeader>, b: Seq<Block>) -> bool {
    &&& h.len() > 0 && chained(h + headers_of(b)) && h.len() + b.len() <= 0x1_0000_0000
    &&& forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).s_height() == h.len() + i && from_node(b[i])
}
/// a fetched block is taken if it continues the chain; otherwise the last one goes
pub open spec fn step(h: Seq<BlockHeader>, b: Seq<Block>, x: Block) -> Seq<Block> { if x.s_header().previous_block_hash == tip(h, b) { b.push(x) } else { b.drop_last() } }
pub open spec fn run(h: Seq<BlockHeader>, b: Seq<Block>, s: Seq<Block>) -> Seq<Block>
    decreases s.len(),
{ if s.len() == 0 { b } else { step(h, run(h, b, s.drop_last()), s.last()) } }
/// the node gave this block, named for its height
pub open spec fn from_node(x: Block) -> bool { exists|n: Seq<u8>, d: Seq<u8>| #[trigger] node_gave(x, n, d) }
pub open spec fn node_gave(x: Block, n: Seq<u8>, d: Seq<u8>) -> bool {
    &&& node_hash(x.s_height() as nat, n) && node_block(n, d)
    &&& is_header(x.s_header(), d) && is_txs(x.s_txs(), tail(d), block_txs_at(d), block_count(d))
}
/// the fetched blocks, each for the height that was next then
pub open spec fn fetched(h: Seq<BlockHeader>, b: Seq<Block>, s: Seq<Block>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> from_node(#[trigger] s[i]) && s[i].s_height() == h.len() + run(h, b, s.take(i)).len()
}
pub proof fn lemma_step_continues(h: Seq<BlockHeader>, b: Seq<Block>, x: Block)
    requires continues(h, b), from_node(x), x.s_height() == h.len() + b.len() <= u32::MAX, b.len() > 0 || x.s_header().previous_block_hash == tip(h, b),
    ensures continues(h, step(h, b, x)),
{
    let c = step(h, b, x);
    let (p, q) = (h + headers_of(b), h + headers_of(c));
    assert forall|i: int| 0 < i < q.len() implies (#[trigger] q[i]).previous_block_hash == q[i - 1].hash by {
        if i < p.len() && i < h.len() + c.len() { assert(q[i] == p[i] && q[i - 1] == p[i - 1]); }
        else { assert(q[i] == x.s_header()); assert(q[i - 1] == p[i - 1]); }
    }
}
pub proof fn lemma_fetched(h: Seq<BlockHeader>, b: Seq<Block>, s: Seq<Block>, x: Block)
    requires fetched(h, b, s), from_node(x), x.s_height() == h.len() + run(h, b, s).len(),
    ensures fetched(h, b, s.push(x)), run(h, b, s.push(x)) == step(h, run(h, b, s), x),
{
    let t = s.push(x);
    assert(t.drop_last() =~= s);
    assert(t.take(s.len() as int) =~= s);
    assert forall|i: int| 0 <= i < t.len() implies from_node(#[trigger] t[i]) && t[i].s_height() == h.len() + run(h, b, t.take(i)).len() by {
        if i < s.len() { assert(t[i] == s[i]); assert(t.take(i) =~= s.take(i)); }
    }
}
// ---- the mempool
/// the known ones of the listed transactions, in the order of the listing
pub open spec fn known(hashes: Seq<[u8; 32]>, m: Map<[u8; 32], Transaction>) -> Seq<Transaction>
    decreases hashes.len(),
{
    if hashes.len() == 0 { Seq::empty() } else {
        let r = known(hashes.drop_last(), m);
        if m.contains_key(hashes.last()) { r.push(m[hashes.last()]) } else { r }
    }
}
/// all that it spends is unspent
pub open spec fn has_inputs(u: Utxos, tx: Transaction) -> bool { forall|i: int| 0 <= i < tx.inputs@.len() ==> u.contains_key(#[trigger] tx.inputs@[i]) }
/// one after the other, those whose inputs are unspent by then
pub open spec fn apply_pool(u: Utxos, txs: Seq<Transaction>) -> Utxos
    decreases txs.len(),
{
    if txs.len() == 0 { u } else {
        let v = apply_pool(u, txs.drop_last());
        if has_inputs(v, txs.last()) { apply_tx(v, txs.last()) } else { v }
    }
}
/// none of them names an input twice or makes an output that is there already
pub open spec fn pool_sane(u: Utxos, txs: Seq<Transaction>) -> bool
    decreases txs.len(),
{
    txs.len() > 0 ==> {
        let v = apply_pool(u, txs.drop_last());
        pool_sane(u, txs.drop_last()) && (has_inputs(v, txs.last()) ==> spendable(v, txs.last().inputs@) && fresh_tx(v, txs.last()))
    }
}
pub proof fn lemma_pool_prefix(u: Utxos, txs: Seq<Transaction>, n: int)
    requires pool_sane(u, txs), 0 <= n <= txs.len(),
    ensures pool_sane(u, txs.take(n)),
    decreases txs.len() - n,
{ if n < txs.len() { lemma_pool_prefix(u, txs, n + 1); assert(txs.take(n + 1).drop_last() =~= txs.take(n)); } else { assert(txs.take(n) =~= txs); } }
/// the view that the n-th overlay gives of a store with the unspent outputs `u`: the first n + 1 recent blocks, in the last one all of them and the mempool
pub open spec fn view_at(u: Utxos, b: Seq<Block>, pool: Seq<Transaction>, n: int) -> Utxos {
    if n < b.len() { apply_txs(u, txs_of(b.take(n + 1))) } else { apply_pool(apply_txs(u, txs_of(b)), pool) }
}
/// the overlays of a store with the unspent outputs `u`
pub open spec fn overlays(r: Seq<TransactionStoreAugmentation>, u: Utxos, b: Seq<Block>, pool: Seq<Transaction>) -> bool {
    forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).fits(u) && r[i].over(u) == view_at(u, b, pool, i)
}
/// the recent blocks and the mempool can be laid over `u`
pub open spec fn sound_over(u: Utxos, b: Seq<Block>, pool: Seq<Transaction>) -> bool {
    fresh(u, txs_of(b)) && txs_spendable(u, txs_of(b)) && pool_sane(apply_txs(u, txs_of(b)), pool)
}
/// what the overlay of a store takes
pub proof fn lemma_over_fits<T: TransactionStoreBackendTrait>(s: AugmentedTransactionStore<'_, T>, u: Utxos, txs: Seq<Transaction>)
    requires fresh(u, txs),
    ensures txs_fit::<AugmentedTransactionStoreBackend<'_, T>>(u, txs),
{ lemma_fresh_fits::<AugmentedTransactionStoreBackend<'_, T>>(u, txs); }
pub proof fn lemma_over_fits_one<T: TransactionStoreBackendTrait>(s: AugmentedTransactionStore<'_, T>, u: Utxos, tx: Transaction)
    requires fresh_tx(u, tx),
    ensures tx_fits::<AugmentedTransactionStoreBackend<'_, T>>(u, tx),
{ }
/// the k-th of some spendable blocks
pub proof fn lemma_block_in(u: Utxos, b: Seq<Block>, k: int)
    requires 0 <= k < b.len(), fresh(u, txs_of(b)), txs_spendable(u, txs_of(b)),
    ensures
        fresh(apply_txs(u, txs_of(b.take(k))), b[k].s_txs()), txs_spendable(apply_txs(u, txs_of(b.take(k))), b[k].s_txs()),
        apply_txs(u, txs_of(b.take(k + 1))) == apply_txs(apply_txs(u, txs_of(b.take(k))), b[k].s_txs()),
{
    let (x, y, z) = (b.take(k), b[k], b.skip(k + 1));
    assert(b.take(k + 1).drop_last() =~= x);
    assert(b =~= b.take(k + 1) + z);
    lemma_txs_of_split(b.take(k + 1), z);
    lemma_apply_split(u, txs_of(x), y.s_txs());
    lemma_apply_split(u, txs_of(b.take(k + 1)), txs_of(z));
    lemma_fresh_split(u, txs_of(b.take(k + 1)), txs_of(z));
    lemma_fresh_split(u, txs_of(x), y.s_txs());
}
pub open spec fn held_tx(m: Map<[u8; 32], Transaction>, h: [u8; 32]) -> Option<Transaction> { if m.contains_key(h) { Some(m[h]) } else { None } }
/// what comes later is another one
pub proof fn lemma_later(s: Seq<[u8; 32]>, k: int, h: [u8; 32])
    requires s.no_duplicates(), 0 <= k < s.len(), s.skip(k + 1).contains(h),
    ensures s.skip(k).contains(h), h != s[k],
{
    let t = s.skip(k + 1);
    let i = choose|i: int| 0 <= i < t.len() && t[i] == h;
    assert(s.skip(k)[i + 1] == h);
    assert(s[k + 1 + i] == h);
}
pub proof fn lemma_push_has(s: Seq<[u8; 32]>, x: [u8; 32], h: [u8; 32])
    ensures s.push(x).contains(h) == (s.contains(h) || h == x),
{
    if s.contains(h) { let i = choose|i: int| 0 <= i < s.len() && s[i] == h; assert(s.push(x)[i] == h); }
    if h == x { assert(s.push(x)[s.len() as int] == h); }
    if s.push(x).contains(h) && h != x { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == h; assert(s[i] == h); }
}
/// after a refresh: the listed transactions, those known before unchanged, the others as the node gave them
pub open spec fn refreshed(old: Map<[u8; 32], Transaction>, new: Map<[u8; 32], Transaction>, hashes: Seq<[u8; 32]>) -> bool {
    &&& forall|h: [u8; 32]| #[trigger] new.contains_key(h) ==> hashes.contains(h) && if old.contains_key(h) { new[h] == old[h] } else { node_tx(h, new[h]) }
    &&& forall|h: [u8; 32]| #[trigger] hashes.contains(h) && !new.contains_key(h) ==> !old.contains_key(h) && node_lacks(h)
}
//@ fn Mempool::new
//@ ret r
ensures r.transactions@ == Map::<[u8; 32], Transaction>::empty(), r.hashes@.len() == 0,
//@ fn Mempool::transactions
//@ ret r
ensures r@ == known(self.hashes@, self.transactions@),
//@ loop 0
invariant
    it0.seq().len() == self.hashes@.len(), forall|i: int| 0 <= i < self.hashes@.len() ==> *#[trigger] it0.seq()[i] == self.hashes@[i],
    __vx_trace@ == known(self.hashes@.take(it0.index() as int), self.transactions@),
//@ at loop 0 start
let ghost k = it0.index() as int;
proof { axiom_key::<[u8; 32]>(); assert(self.hashes@.take(k + 1).drop_last() =~= self.hashes@.take(k)); assert(*hash == self.hashes@[k]); }
//@ at end
proof { assert(self.hashes@.take(self.hashes@.len() as int) =~= self.hashes@); }
//@ impl BlockUpdater
pub open spec fn h(&self) -> Seq<BlockHeader> { self.store.headers() }
pub open spec fn b(&self) -> Seq<Block> { self.blocks@ }
//@ fn BlockUpdater::height
//@ ret r
requires self.h().len() + self.b().len() <= usize::MAX,
ensures r == self.h().len() + self.b().len(),
//@ fn BlockUpdater::last_block_hash
//@ ret r
requires self.h().len() > 0,
ensures r == tip(self.h(), self.b()),
//@ fn BlockUpdater::add_block
requires
    continues(old(self).h(), old(self).b()), from_node(block), block.s_height() == old(self).h().len() + old(self).b().len() <= u32::MAX,
    old(self).b().len() > 0 || block.s_header().previous_block_hash == tip(old(self).h(), old(self).b()) || may_panic(),
ensures
    final(self).store == old(self).store, *final(final(self).blocks) == *final(old(self).blocks), final(self).b() == step(old(self).h(), old(self).b(), block),
    continues(final(self).h(), final(self).b()),
//@ at start
let ghost (h, b, x) = (self.h(), self.b(), block);
//@ at end
proof { lemma_step_continues(h, b, x); }
//@ fn BlockUpdater::next_block
//@ ret r
requires continues(self.h(), self.b()),
ensures
    r matches Some(x) ==> from_node(x) && x.s_height() == self.h().len() + self.b().len() <= u32::MAX,
    r matches Some(x) ==> forall|t: [u8; 32]| #[trigger] node_keeps(x.s_height() as nat, t) ==> x.s_header().previous_block_hash == t,
    r is None ==> node_ends(self.h().len() + self.b().len()),
//@ at let block
proof {
    assert(node_gave(block, hash@, buffer@));
    assert forall|t: [u8; 32]| #[trigger] node_keeps(block.s_height() as nat, t) implies block.s_header().previous_block_hash == t by {
        assert(arr::<32>(t@) == t && arr::<32>(block.s_header().previous_block_hash@) == block.s_header().previous_block_hash);
    }
}
//@ fn BlockUpdater::update
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ ret r
requires
    continues(old(self).h(), old(self).b()),
    may_panic() || node_keeps(old(self).h().len(), tip(old(self).h(), Seq::empty())),
ensures
    final(self).store == old(self).store, *final(final(self).blocks) == *final(old(self).blocks), continues(final(self).h(), final(self).b()),
    node_ends(final(self).h().len() + final(self).b().len()),
    exists|s: Seq<Block>| #[trigger] fetched(old(self).h(), old(self).b(), s) && final(self).b() == run(old(self).h(), old(self).b(), s) && r == (s.len() > 0),
//@ at start
let ghost (h, b) = (self.h(), self.b());
let ghost mut s = Seq::<Block>::empty();
//@ loop 0
invariant
    self.store == old(self).store, h == self.h(), b == old(self).b(), continues(h, self.b()),
    may_panic() || node_keeps(h.len(), tip(h, Seq::empty())),
    fetched(h, b, s), self.b() == run(h, b, s), updated == (s.len() > 0),
    *final(self.blocks) == *final(old(self).blocks),
ensures node_ends(h.len() + self.b().len()),
//@ at loop 0 start
proof { lemma_fetched(h, b, s, block); s = s.push(block); }
//@ impl LastBlocks
pub open spec fn b(&self) -> Seq<Block> { self.blocks@ }
pub open spec fn pool(&self) -> Seq<Transaction> { known(self.mempool.hashes@, self.mempool.transactions@) }
//@ fn LastBlocks::augmentation
//@ ret r
requires
    store.wf(), self.b().len() < usize::MAX, count <= self.b().len() || may_panic(),
    sound_over(store.utxos(), self.b(), self.pool()),
ensures
    count <= self.b().len(), r.fits(store.utxos()),
    r.over(store.utxos()) == view_at(store.utxos(), self.b(), self.pool(), count as int),
//@ at start
let ghost (u, b, pool) = (store.utxos(), self.b(), self.pool());
let ghost full = apply_txs(u, txs_of(b));
//@ at loop 0 before
proof { assert(b.take(0).len() == 0); }
//@ loop 0
invariant
    it0.seq().len() == count + 1, forall|j: int| 0 <= j < it0.seq().len() ==> #[trigger] it0.seq()[j] == j,
    u == store.utxos(), b == self.b(), pool == self.pool(), full == apply_txs(u, txs_of(b)), sound_over(u, b, pool), count <= b.len() < usize::MAX,
    augmented_store.wf(), augmented_store.strict, augmented_store.below() == u,
    it0.index() <= b.len() ==> augmented_store.utxos() == apply_txs(u, txs_of(b.take(it0.index() as int))),
    it0.index() > b.len() ==> augmented_store.utxos() == apply_pool(full, pool),
//@ at loop 0 start
let ghost k = it0.index() as int;
proof {
    assert(i == k);
    if k < b.len() { lemma_block_in(u, b, k); lemma_over_fits(augmented_store, augmented_store.utxos(), b[k].s_txs()); }
    else { assert(b.take(k) =~= b); }
}
//@ loop 1
invariant
    it1.seq() == pool, full == apply_txs(u, txs_of(b)), sound_over(u, b, pool),
    augmented_store.wf(), augmented_store.strict, augmented_store.below() == u,
    augmented_store.utxos() == apply_pool(full, pool.take(it1.index() as int)),
    it1.index() == it1.seq().len() ==> augmented_store.utxos() == apply_pool(full, pool),
//@ at loop 1 before
proof { assert(pool.take(0).len() == 0); if pool.len() == 0 { assert(pool.take(0) =~= pool); } }
//@ at loop 1 start
let ghost (j, v) = (it1.index() as int, augmented_store.utxos());
proof {
    assert(pool.take(j + 1).drop_last() =~= pool.take(j));
    lemma_pool_prefix(full, pool, j + 1);
    if has_inputs(v, pool[j]) { lemma_over_fits_one(augmented_store, v, pool[j]); }
    if j + 1 == pool.len() { assert(pool.take(j + 1) =~= pool); }
}
//@ fn LastBlocks::last_augmentation
//@ ret r
requires store.wf(), self.b().len() < usize::MAX, sound_over(store.utxos(), self.b(), self.pool()),
ensures r.fits(store.utxos()), r.over(store.utxos()) == view_at(store.utxos(), self.b(), self.pool(), self.b().len() as int),
//@ fn LastBlocks::augmentations
//@ ret r
requires store.wf(), self.b().len() < usize::MAX, sound_over(store.utxos(), self.b(), self.pool()),
ensures
    r@.len() == self.b().len() + 1,
    overlays(r@, store.utxos(), self.b(), self.pool()),
//@ loop 0
invariant
    it0.seq().len() == self.b().len() + 1, forall|j: int| 0 <= j < it0.seq().len() ==> #[trigger] it0.seq()[j] == j,
    store.wf(), self.b().len() < usize::MAX, sound_over(store.utxos(), self.b(), self.pool()),
    augmentations@.len() == it0.index(), overlays(augmentations@, store.utxos(), self.b(), self.pool()),
//@ fn LastBlocks::update_mempool
requires forall|h: [u8; 32]| !old(self).mempool.transactions@.contains_key(h) ==> #[trigger] may_ask(h),
ensures
    final(self).blocks == old(self).blocks,
    node_pool(final(self).mempool.hashes@),
    refreshed(old(self).mempool.transactions@, final(self).mempool.transactions@, final(self).mempool.hashes@),
//@ at start
let ghost m0 = self.mempool.transactions@;
//@ loop 0
invariant
    it0.seq().len() == hashes@.len(), forall|i: int| 0 <= i < hashes@.len() ==> *#[trigger] it0.seq()[i] == hashes@[i],
    hashes@.no_duplicates(), self.blocks == old(self).blocks, m0 == old(self).mempool.transactions@,
    forall|h: [u8; 32]| !m0.contains_key(h) ==> #[trigger] may_ask(h),
    forall|h: [u8; 32]| #[trigger] hashes@.skip(it0.index() as int).contains(h) ==> held_tx(self.mempool.transactions@, h) == held_tx(m0, h),
    refreshed(m0, transactions@, hashes@.take(it0.index() as int)),
//@ at loop 0 before
proof { assert(hashes@.skip(0) =~= hashes@); assert(hashes@.take(0) =~= Seq::empty()); }
//@ at loop 0 start
let ghost (k, t0) = (it0.index() as int, transactions@);
proof {
    axiom_key::<[u8; 32]>();
    assert(*hash == hashes@[k]);
    assert(hashes@.skip(k)[0] == *hash);
    assert(hashes@.skip(k).contains(*hash));
    assert(held_tx(self.mempool.transactions@, *hash) == held_tx(m0, *hash));
}
//@ at loop 0 end
proof {
    assert forall|h: [u8; 32]| #[trigger] hashes@.skip(k + 1).contains(h) implies held_tx(self.mempool.transactions@, h) == held_tx(m0, h) by {
        lemma_later(hashes@, k, h);
    }
    assert(hashes@.take(k + 1) =~= hashes@.take(k).push(*hash));
    assert forall|h: [u8; 32]| #[trigger] hashes@.take(k + 1).contains(h) == (hashes@.take(k).contains(h) || h == *hash) by { lemma_push_has(hashes@.take(k), *hash, h); }
    assert forall|h: [u8; 32]| h != *hash implies #[trigger] transactions@.contains_key(h) == t0.contains_key(h) by {}
}
//@ at loop 0 after
proof { assert(hashes@.take(hashes@.len() as int) =~= hashes@); }
//@ fn LastBlocks::new
//@ ret r
ensures r.blocks@.len() == 0, r.mempool.transactions@ == Map::<[u8; 32], Transaction>::empty(),
//@ fn LastBlocks::len
//@ ret r
requires self.blocks@.len() < usize::MAX,
ensures r == self.blocks@.len() + 1,
//@ fn LastBlocks::pop
//@ ret r
requires confirmations >= 1,
ensures
    r@ + final(self).blocks@ == old(self).blocks@, final(self).mempool == old(self).mempool,
    final(self).blocks@.len() == if old(self).blocks@.len() < confirmations { old(self).blocks@.len() } else { (confirmations - 1) as nat },
//@ loop 0
invariant
    confirmations >= 1, blocks@ + self.blocks@ =~= old(self).blocks@, self.mempool == old(self).mempool,
    self.blocks@.len() == old(self).blocks@.len() || self.blocks@.len() >= confirmations - 1,
decreases self.blocks@.len(),
//@ fn LastBlocks::update_blocks
//@ ret r
requires
    continues(store.headers(), old(self).blocks@),
    may_panic() || node_keeps(store.headers().len(), tip(store.headers(), Seq::empty())),
ensures
    continues(store.headers(), final(self).blocks@), final(self).mempool == old(self).mempool,
    node_ends(store.headers().len() + final(self).blocks@.len()),
    exists|s: Seq<Block>| #[trigger] fetched(store.headers(), old(self).blocks@, s) && final(self).blocks@ == run(store.headers(), old(self).blocks@, s) && r == (s.len() > 0),
