//@ file state.rs
//@ noarcs
//@ known Client
//@ top
broadcast use {crate::shim::shim_axioms, vstd::std_specs::hash::group_hash_axioms};
use crate::client::*;
use crate::block::*;
use crate::BlockHeader;
use crate::Transaction;
use crate::last_blocks::*;
use crate::store::store::*;
use crate::store::transaction_store::*;
use crate::store::transaction_store_backend::*;
use crate::store::transaction_store_backend_trait::*;
// ---- what makes a chain valid (assumed of what the node gives: it follows Bitcoin's rules)
/// a valid chain with these headers has these unspent outputs
pub uninterp spec fn valid(h: Seq<BlockHeader>, u: Utxos) -> bool;
/// a valid chain's unspent outputs, with some mempool transactions applied
pub uninterp spec fn valid_view(u: Utxos) -> bool;
/// a block of the node whose parent is the last of a valid chain continues that chain: it spends what is unspent and makes what is not there yet
pub axiom fn axiom_valid_block(h: Seq<BlockHeader>, u: Utxos, x: Block)
    requires valid(h, u), h.len() > 0, from_node(x), x.s_header().previous_block_hash == h.last().hash,
    ensures txs_spendable(u, x.s_txs()), fresh(u, x.s_txs()), valid(h.push(x.s_header()), apply_txs(u, x.s_txs()));
pub axiom fn axiom_valid_view(h: Seq<BlockHeader>, u: Utxos)
    requires valid(h, u),
    ensures valid_view(u);
/// a mempool transaction of the node names no input twice, and its id is new wherever its inputs are unspent
pub axiom fn axiom_valid_tx(u: Utxos, id: [u8; 32], tx: Transaction)
    requires valid_view(u), node_tx(id, tx), has_inputs(u, tx),
    ensures spendable(u, tx.inputs@), fresh_tx(u, tx), valid_view(apply_tx(u, tx));
/// all the known mempool transactions came from the node
pub open spec fn from_pool(m: Map<[u8; 32], Transaction>) -> bool { forall|h: [u8; 32]| #[trigger] m.contains_key(h) ==> node_tx(h, m[h]) }
pub open spec fn all_from_node(b: Seq<Block>) -> bool { forall|i: int| 0 <= i < b.len() ==> from_node(#[trigger] b[i]) }
pub proof fn lemma_valid_tail(h: Seq<BlockHeader>, u: Utxos, b: Seq<Block>)
    requires valid(h, u), h.len() > 0, chained(h + headers_of(b)), all_from_node(b),
    ensures txs_spendable(u, txs_of(b)), fresh(u, txs_of(b)), valid(h + headers_of(b), apply_txs(u, txs_of(b))),
    decreases b.len(),
{
    if b.len() == 0 { assert(h + headers_of(b) =~= h); } else {
        let (r, x) = (b.drop_last(), b.last());
        let (p, q) = (h + headers_of(r), h + headers_of(b));
        assert(p.push(x.s_header()) =~= q);
        assert forall|i: int| 0 < i < p.len() implies (#[trigger] p[i]).previous_block_hash == p[i - 1].hash by { assert(q[i] == p[i] && q[i - 1] == p[i - 1]); }
        lemma_valid_tail(h, u, r);
        assert(q[p.len() as int] == x.s_header() && q[p.len() - 1] == p.last());
        axiom_valid_block(p, apply_txs(u, txs_of(r)), x);
        lemma_apply_split(u, txs_of(r), x.s_txs());
        lemma_fresh_split(u, txs_of(r), x.s_txs());
    }
}
pub proof fn lemma_valid_pool(u: Utxos, hashes: Seq<[u8; 32]>, m: Map<[u8; 32], Transaction>)
    requires valid_view(u), from_pool(m),
    ensures pool_sane(u, known(hashes, m)), valid_view(apply_pool(u, known(hashes, m))),
    decreases hashes.len(),
{
    if hashes.len() > 0 {
        let (r, x) = (hashes.drop_last(), hashes.last());
        lemma_valid_pool(u, r, m);
        if m.contains_key(x) {
            let k = known(r, m);
            assert(k.push(m[x]).drop_last() =~= k);
            if has_inputs(apply_pool(u, k), m[x]) { axiom_valid_tx(apply_pool(u, k), x, m[x]); }
        }
    }
}
/// what is needed to lay the recent blocks and the mempool over the store
pub proof fn lemma_sound(h: Seq<BlockHeader>, u: Utxos, l: LastBlocks)
    requires valid(h, u), continues(h, l.b()), from_pool(l.mempool.transactions@),
    ensures sound_over(u, l.b(), l.pool()),
{
    lemma_valid_tail(h, u, l.b());
    axiom_valid_view(h + headers_of(l.b()), apply_txs(u, txs_of(l.b())));
    lemma_valid_pool(apply_txs(u, txs_of(l.b())), l.mempool.hashes@, l.mempool.transactions@);
}
/// moving the oldest of the recent blocks into the store
pub proof fn lemma_move(h: Seq<BlockHeader>, u: Utxos, a: Seq<Block>, b: Seq<Block>)
    requires valid(h, u), continues(h, a + b),
    ensures
        txs_spendable(u, txs_of(a)), fresh(u, txs_of(a)), chained(h + headers_of(a)),
        valid(h + headers_of(a), apply_txs(u, txs_of(a))), continues(h + headers_of(a), b),
{
    let (g, w) = (h + headers_of(a), h + headers_of(a + b));
    lemma_txs_of_split(a, b);
    assert(w =~= g + headers_of(b));
    assert((g + headers_of(b)) + Seq::<BlockHeader>::empty() =~= w);
    lemma_chained_part(g, headers_of(b), Seq::empty());
    assert forall|i: int| 0 <= i < a.len() implies from_node(#[trigger] a[i]) by { assert((a + b)[i] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() implies from_node(#[trigger] b[i]) && b[i].s_height() == g.len() + i by { assert((a + b)[a.len() + i] == b[i]); }
    lemma_valid_tail(h, u, a);
}
// ---- queries
/// what a query at `c` confirmations sees
pub open spec fn seen(u: Utxos, b: Seq<Block>, pool: Seq<Transaction>, c: int) -> Utxos {
    if c == b.len() + 1 { u } else { view_at(u, b, pool, b.len() - c) }
}
/// at c > 0 that is the chain without the c - 1 most recent blocks, at 0 all of it and the mempool
pub proof fn lemma_seen(u: Utxos, b: Seq<Block>, pool: Seq<Transaction>, c: int)
    requires 0 <= c <= b.len() + 1,
    ensures seen(u, b, pool, c) == if c == 0 { apply_pool(apply_txs(u, txs_of(b)), pool) } else { apply_txs(u, txs_of(b.take(b.len() - (c - 1)))) },
{ if c == b.len() + 1 { assert(b.take(0) =~= Seq::empty()); } }
/// one overlay for each number of confirmations; the last one may be stale
pub open spec fn but_last(augs: Seq<TransactionStoreAugmentation>, u: Utxos, b: Seq<Block>) -> bool { augs.len() == b.len() + 1 && overlays(augs.drop_last(), u, b, Seq::empty()) }
/// `s1` and the update are what comes of `s0`
pub open spec fn computed(s0: State, s1: State, update: Update, stored: bool) -> bool {
    &&& s1.store == s0.store && s1.augmentations == s0.augmentations && s1.confirmations == s0.confirmations
    &&& node_pool(s1.l().mempool.hashes@) && refreshed(s0.l().mempool.transactions@, s1.l().mempool.transactions@, s1.l().mempool.hashes@)
    &&& match update {
        Update::LastAugmentationUpdate(a) => {
            &&& s1.l().b() == s0.l().b() && node_ends(s0.h().len() + s0.l().b().len())
            &&& a.fits(s0.u()) && a.over(s0.u()) == view_at(s0.u(), s1.l().b(), s1.l().pool(), s1.l().b().len() as int)
        },
        Update::AugmentationsUpdate(augs, blocks) => {
            &&& if stored { s1.l().b().len() == s0.confirmations - 1 } else { blocks@.len() == 0 }
            &&& exists|s: Seq<Block>| #[trigger] fetched(s0.h(), s0.l().b(), s) && blocks@ + s1.l().b() == run(s0.h(), s0.l().b(), s) && s.len() > 0
            &&& node_ends(s0.h().len() + blocks@.len() + s1.l().b().len()) && continues(s0.h(), blocks@ + s1.l().b())
            &&& augs@.len() == s1.l().b().len() + 1 >= s0.confirmations && overlays(augs@, apply_txs(s0.u(), txs_of(blocks@)), s1.l().b(), s1.l().pool())
        },
    }
}
/// the update can be applied
pub open spec fn applicable(s: State, update: Update) -> bool {
    &&& s.store.v.wf() && s.store.v.strict() && valid(s.h(), s.u()) && from_pool(s.l().mempool.transactions@) && s.confirmations >= 1
    &&& match update {
        Update::LastAugmentationUpdate(a) => {
            &&& s.wf() && a.fits(s.u()) && a.over(s.u()) == view_at(s.u(), s.l().b(), s.l().pool(), s.l().b().len() as int)
        },
        Update::AugmentationsUpdate(augs, blocks) => {
            &&& continues(s.h(), blocks@ + s.l().b())
            &&& s.l().b().len() < s.confirmations || lock_taken()
            &&& augs@.len() == s.l().b().len() + 1 && overlays(augs@, apply_txs(s.u(), txs_of(blocks@)), s.l().b(), s.l().pool())
        },
    }
}
/// the blocks an update moves into the store
pub open spec fn moved(update: Update) -> Seq<Block> { match update { Update::LastAugmentationUpdate(a) => Seq::empty(), Update::AugmentationsUpdate(augs, blocks) => blocks@ } }
/// what a store can take
pub proof fn lemma_takes<T: TransactionStoreBackendTrait>(s: Store<T>, u: Utxos, txs: Seq<Transaction>)
    requires fresh(u, txs), s.utxos() == u,
    ensures takes(s, txs),
{ lemma_fresh_fits::<T>(u, txs); }
/// the overlays but the last do not depend on the mempool
pub proof fn lemma_but_last(augs: Seq<TransactionStoreAugmentation>, u: Utxos, b: Seq<Block>, pool: Seq<Transaction>)
    requires overlays(augs, u, b, pool), augs.len() == b.len() + 1,
    ensures but_last(augs, u, b),
{
    let r = augs.drop_last();
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).fits(u) && r[i].over(u) == view_at(u, b, Seq::empty(), i) by { assert(r[i] == augs[i]); }
}
pub proof fn lemma_with_last(augs: Seq<TransactionStoreAugmentation>, u: Utxos, b: Seq<Block>, pool: Seq<Transaction>)
    requires
        augs.len() == b.len() + 1, overlays(augs.drop_last(), u, b, Seq::empty()),
        augs.last().fits(u), augs.last().over(u) == view_at(u, b, pool, b.len() as int),
    ensures overlays(augs, u, b, pool),
{
    let r = augs.drop_last();
    assert forall|i: int| 0 <= i < augs.len() implies (#[trigger] augs[i]).fits(u) && augs[i].over(u) == view_at(u, b, pool, i) by { if i < b.len() { assert(r[i] == augs[i]); } }
}
/// no block moved
pub proof fn lemma_none(h: Seq<BlockHeader>, u: Utxos, a: Seq<Block>)
    requires a.len() == 0,
    ensures h + headers_of(a) == h, apply_txs(u, txs_of(a)) == u, headers_of(a) == Seq::<BlockHeader>::empty(),
{ assert(h + headers_of(a) =~= h); assert(headers_of(a) =~= Seq::empty()); }
/// what applying an update leads to
pub proof fn lemma_applied(s: State, update: Update)
    requires applicable(s, update),
    ensures
        takes(s.store.v, txs_of(moved(update))), txs_spendable(s.u(), txs_of(moved(update))), chained(s.h() + headers_of(moved(update))),
        valid(s.h() + headers_of(moved(update)), apply_txs(s.u(), txs_of(moved(update)))), continues(s.h() + headers_of(moved(update)), s.l().b()),
        moved(update).len() == 0 ==> s.h() + headers_of(moved(update)) == s.h() && apply_txs(s.u(), txs_of(moved(update))) == s.u(),
        match update {
            Update::LastAugmentationUpdate(a) => {
                let l = (if s.augs().len() > 0 { s.augs().drop_last() } else { s.augs() }).push(a);
                overlays(l, s.u(), s.l().b(), s.l().pool()) && but_last(l, s.u(), s.l().b())
            },
            Update::AugmentationsUpdate(augs, blocks) => but_last(augs@, apply_txs(s.u(), txs_of(moved(update))), s.l().b()),
        },
{
    let (h, u, b, pool, m) = (s.h(), s.u(), s.l().b(), s.l().pool(), moved(update));
    if m.len() == 0 { lemma_none(h, u, m); assert(m + b =~= b); }
    match update {
        Update::LastAugmentationUpdate(a) => {
            let p = if s.augs().len() > 0 { s.augs().drop_last() } else { s.augs() };
            assert(p.push(a).drop_last() =~= p);
            lemma_with_last(p.push(a), u, b, pool);
            lemma_but_last(p.push(a), u, b, pool);
        },
        Update::AugmentationsUpdate(augs, blocks) => { lemma_but_last(augs@, apply_txs(u, txs_of(m)), b, pool); },
    }
    lemma_move(h, u, m, b);
    lemma_takes(s.store.v, u, txs_of(m));
}
/// the answers to a list of queries
pub open spec fn balances(r: Seq<(Address, u64)>, s: State, c: int, addresses: Seq<Address>) -> bool {
    r.len() == addresses.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 == addresses[i] && r[i].1 == total(s.answer(c, addresses[i]))
}
pub open spec fn listings(r: Seq<(Address, Vec<(TransactionOutput, u64)>)>, s: State, c: int, addresses: Seq<Address>) -> bool {
    r.len() == addresses.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 == addresses[i] && lists(r[i].1@, s.answer(c, addresses[i]))
}
pub open spec fn so_far(r: Seq<(TransactionOutput, u64)>, src: Seq<(TransactionOutput, u64)>, k: int) -> bool { r == src.take(k) && (k == src.len() ==> r == src) }
/// what an update made of the state
pub open spec fn followed(s0: State, s1: State, m: Seq<Block>, s: Seq<Block>) -> bool {
    &&& fetched(s0.h(), s0.l().b(), s) && m + s1.l().b() == run(s0.h(), s0.l().b(), s)
    &&& s1.h() == s0.h() + headers_of(m) && s1.u() == apply_txs(s0.u(), txs_of(m))
    &&& node_ends(s1.h().len() + s1.l().b().len())
    &&& s1.l().b().len() >= s0.confirmations - 1 && (s1.l().b().len() == s0.confirmations - 1 || lock_taken())
    &&& s1.confirmations == s0.confirmations
}
//@ impl State
pub open spec fn h(&self) -> Seq<BlockHeader> { self.store.v.headers() }
pub open spec fn u(&self) -> Utxos { self.store.v.utxos() }
pub open spec fn l(&self) -> LastBlocks { self.tail_blocks.v }
pub open spec fn augs(&self) -> Seq<TransactionStoreAugmentation> { self.augmentations.v@ }
/// the store holds a valid chain, and the recent blocks continue it
pub open spec fn wf(&self) -> bool {
    &&& self.store.v.wf() && self.store.v.strict() && valid(self.h(), self.u())
    &&& continues(self.h(), self.l().b()) && from_pool(self.l().mempool.transactions@) && self.confirmations >= 1
    &&& self.l().b().len() < self.confirmations || lock_taken()
    &&& self.augs().len() == 0 && self.l().b().len() == 0 || but_last(self.augs(), self.u(), self.l().b())
}
/// one overlay for each number of confirmations
pub open spec fn ready(&self) -> bool {
    self.augs().len() == self.l().b().len() + 1 && overlays(self.augs(), self.u(), self.l().b(), self.l().pool())
}
/// the node goes on from the stored chain: it never drops it, and always has enough blocks on top of it
pub open spec fn in_step(&self) -> bool {
    &&& node_keeps(self.h().len(), self.h().last().hash)
    &&& forall|k: nat| #[trigger] node_ends(k) ==> k >= self.h().len() + self.confirmations - 1
    &&& forall|x: [u8; 32]| !self.l().mempool.transactions@.contains_key(x) ==> #[trigger] may_ask(x)
}
/// the answer to a query for an address at `c` confirmations
pub open spec fn answer(&self, c: int, a: Address) -> Listing { by_addr(seen(self.u(), self.l().b(), self.l().pool(), c), a) }
//@ fn State::new
//@ ret r
requires store.wf(), store.strict(), valid(store.headers(), store.utxos()), confirmations >= 1, 0 < store.headers().len() <= 0x1_0000_0000,
ensures r.wf(), r.h() == store.headers(), r.u() == store.utxos(), r.confirmations == confirmations, r.augs().len() == 0, r.l().b().len() == 0,
//@ at start
proof { lemma_none(store.headers(), store.utxos(), Seq::empty()); }
//@ fn State::confirmations
//@ ret r
ensures r == self.confirmations,
//@ fn State::compute_update
//@ param self: &mut self
//@ ret r
requires old(self).wf(), old(self).in_step(), update_store || lock_taken(),
ensures computed(*old(self), *final(self), r, update_store), from_pool(final(self).l().mempool.transactions@),
//@ at start
let ghost (s0, h, u) = (*self, self.h(), self.u());
//@ at let blocks
let ghost b1 = blocks@ + tail_blocks.b();
proof {
    lemma_move(h, u, blocks@, tail_blocks.b());
    lemma_sound(h + headers_of(blocks@), apply_txs(u, txs_of(blocks@)), *tail_blocks);
    if blocks@.len() == 0 { lemma_none(h, u, blocks@); }
    assert(h + headers_of(blocks@) + Seq::<BlockHeader>::empty() =~= h + headers_of(blocks@));
    lemma_chained_part(h, headers_of(blocks@), Seq::empty());
    assert(Seq::<BlockHeader>::empty() + headers_of(blocks@) =~= headers_of(blocks@));
}
//@ at call last_augmentation before
proof { lemma_sound(h, u, *tail_blocks); }
//@ at loop 0 before
let ghost st0 = store;
proof { lemma_takes(st0, u, txs_of(blocks@)); lemma_none(Seq::empty(), u, blocks@.take(0)); }
//@ loop 0
invariant
    it0.seq().len() == blocks@.len(), forall|i: int| 0 <= i < blocks@.len() ==> *#[trigger] it0.seq()[i] == blocks@[i],
    chained(Seq::<BlockHeader>::empty() + headers_of(blocks@)), takes(st0, txs_of(blocks@)), txs_spendable(u, txs_of(blocks@)), st0.utxos() == u,
    store.wf(), store.strict(), store.headers() == Seq::<BlockHeader>::empty() + headers_of(blocks@.take(it0.index() as int)),
    store.utxos() == apply_txs(u, txs_of(blocks@.take(it0.index() as int))),
//@ at loop 0 start
let ghost k = it0.index() as int;
proof { assert(*block == blocks@[k]); lemma_step(st0, Seq::empty(), blocks@, k); }
//@ at loop 0 after
proof { assert(blocks@.take(blocks@.len() as int) =~= blocks@); }
//@ fn State::apply_update
//@ param self: &mut self
//@ ret r
requires applicable(*old(self), update),
ensures
    final(self).wf(), final(self).ready(),
    final(self).tail_blocks == old(self).tail_blocks, final(self).confirmations == old(self).confirmations,
    final(self).h() == old(self).h() + headers_of(moved(update)), final(self).u() == apply_txs(old(self).u(), txs_of(moved(update))),
    r == (moved(update).len() > 0),
//@ at start
let ghost (s0, h, u, b, pool, m) = (*self, self.h(), self.u(), self.l().b(), self.l().pool(), moved(update));
proof { lemma_applied(s0, update); }
//@ at loop 0 before
proof { lemma_none(h, u, m.take(0)); }
//@ loop 0
invariant
    m == blocks@, it0.seq().len() == m.len(), forall|i: int| 0 <= i < m.len() ==> *#[trigger] it0.seq()[i] == m[i],
    h == s0.h(), u == s0.u(), takes(s0.store.v, txs_of(m)), txs_spendable(u, txs_of(m)), chained(h + headers_of(m)),
    store.wf(), store.strict(), store.headers() == h + headers_of(m.take(it0.index() as int)),
    store.utxos() == apply_txs(u, txs_of(m.take(it0.index() as int))),
//@ at loop 0 start
let ghost k = it0.index() as int;
proof { assert(*block == m[k]); lemma_step(s0.store.v, h, m, k); }
//@ at loop 0 after
proof { assert(m.take(m.len() as int) =~= m); }
//@ fn State::update
//@ param self: &mut self
//@ ret r
requires old(self).wf(), old(self).in_step(),
ensures
    final(self).wf(), final(self).ready(), final(self).augs().len() >= old(self).confirmations, final(self).augs().len() == old(self).confirmations || lock_taken(),
    exists|m: Seq<Block>, s: Seq<Block>| #[trigger] followed(*old(self), *final(self), m, s) && r == (m.len() > 0),
    node_pool(final(self).l().mempool.hashes@), refreshed(old(self).l().mempool.transactions@, final(self).l().mempool.transactions@, final(self).l().mempool.hashes@),
//@ at start
let ghost s0 = *self;
//@ at let update
let ghost (s1, up) = (*self, update);
proof { lemma_none(s0.h(), s0.u(), Seq::empty()); assert(Seq::<Block>::empty() + s0.l().b() =~= s0.l().b()); assert(fetched(s0.h(), s0.l().b(), Seq::empty())); }
//@ at end
proof {
    match up {
        Update::LastAugmentationUpdate(a) => { assert(followed(s0, *self, Seq::empty(), Seq::empty())); },
        Update::AugmentationsUpdate(augs, blocks) => {
            let s = choose|s: Seq<Block>| #[trigger] fetched(s0.h(), s0.l().b(), s) && blocks@ + s1.l().b() == run(s0.h(), s0.l().b(), s) && s.len() > 0;
            assert(followed(s0, *self, blocks@, s));
        },
    }
}
//@ fn State::augmented_store
//@ ret r
requires
    store.wf(), confirmations <= augmentations@.len() || may_panic(),
    exists|b: Seq<Block>, pool: Seq<Transaction>| #[trigger] overlays(augmentations@, store.utxos(), b, pool) && augmentations@.len() == b.len() + 1,
ensures
    confirmations <= augmentations@.len(), r.backend.rwf(),
    forall|b: Seq<Block>, pool: Seq<Transaction>, a: Address| overlays(augmentations@, store.utxos(), b, pool) && augmentations@.len() == b.len() + 1
        ==> r.backend.s_list(a) == #[trigger] by_addr(seen(store.utxos(), b, pool, confirmations as int), a),
//@ fn State::balance
//@ ret r
requires self.wf(), self.ready(), confirmations <= self.augs().len() || may_panic(), total(self.answer(confirmations as int, *address)) <= u64::MAX,
ensures confirmations <= self.augs().len(), r == total(self.answer(confirmations as int, *address)),
//@ fn State::iterate_transaction_outputs
//@ ret r
requires self.wf(), self.ready(), confirmations <= self.augs().len() || may_panic(),
ensures confirmations <= self.augs().len(), lists(r@, self.answer(confirmations as int, *address)),
//@ fn State::balance_array
//@ ret r
requires
    self.wf(), self.ready(), confirmations <= self.augs().len() || may_panic(),
    forall|i: int| 0 <= i < addresses@.len() ==> total(self.answer(confirmations as int, #[trigger] addresses@[i])) <= u64::MAX,
ensures
    confirmations <= self.augs().len(), r@.len() == addresses@.len(),
    balances(r@, *self, confirmations as int, addresses@),
//@ at loop 0 before
let ghost (src, c) = (addresses@, confirmations as int);
proof { assert forall|a: Address| #[trigger] store.backend.s_list(a) == self.answer(c, a) by { } assert(src.take(0) =~= Seq::empty()); }
//@ loop 0
invariant
    it0.seq() == src, c == confirmations, store.backend.rwf(), forall|a: Address| #[trigger] store.backend.s_list(a) == self.answer(c, a),
    forall|i: int| 0 <= i < src.len() ==> total(self.answer(c, #[trigger] src[i])) <= u64::MAX,
    balances(__vx_v1@, *self, c, src.take(it0.index() as int)), it0.index() == it0.seq().len() ==> balances(__vx_v1@, *self, c, src),
//@ at loop 0 end
proof { let k = it0.index() as int; if k + 1 == src.len() { assert(src.take(k + 1) =~= src); } }
//@ fn State::transaction_outputs_array
//@ ret r
requires self.wf(), self.ready(), confirmations <= self.augs().len() || may_panic(),
ensures
    confirmations <= self.augs().len(), r@.len() == addresses@.len(),
    listings(r@, *self, confirmations as int, addresses@),
//@ at loop 0 before
let ghost (src, c) = (addresses@, confirmations as int);
proof { assert forall|a: Address| #[trigger] store.backend.s_list(a) == self.answer(c, a) by { } assert(src.take(0) =~= Seq::empty()); }
//@ loop 0
invariant
    it0.seq() == src, c == confirmations, store.backend.rwf(), forall|a: Address| #[trigger] store.backend.s_list(a) == self.answer(c, a),
    listings(__vx_v1@, *self, c, src.take(it0.index() as int)), it0.index() == it0.seq().len() ==> listings(__vx_v1@, *self, c, src),
//@ at loop 0 end
proof { let k = it0.index() as int; if k + 1 == src.len() { assert(src.take(k + 1) =~= src); } }
//@ at let __vx_src0
let ghost found = __vx_src0@;
proof { assert(found.take(0) =~= Seq::empty()); if found.len() == 0 { assert(found.take(0) =~= found); } }
//@ loop 1
invariant it1.seq() == found, so_far(utxos@, found, it1.index() as int),
//@ at loop 1 end
proof { let j = it1.index() as int; assert(utxos@ =~= found.take(j + 1)); if j + 1 == found.len() { assert(found.take(j + 1) =~= found); } }
//@ fn State::write
//@ param self: &mut self
requires old(self).wf(), old(self).h().len() <= u32::MAX, old(self).u().len() <= u32::MAX, disk_works(), may_be_kept(old(self).h(), old(self).u()), precious_only(file@),
ensures saved(file@, old(self).h(), old(self).u()), final(self).store == old(self).store, final(self).augmentations == old(self).augmentations, final(self).tail_blocks == old(self).tail_blocks,
