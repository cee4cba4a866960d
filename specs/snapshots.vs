//@ file state.rs
//@ module snapshots
//@ noarcs
//@ locks
//@ known Client
//@ top
broadcast use {crate::shim::shim_axioms, vstd::std_specs::hash::group_hash_axioms};
use crate::block::*;
use crate::BlockHeader;
use crate::Transaction;
use crate::last_blocks::*;
use crate::state::{seen, so_far};
use crate::store::store::*;
use crate::store::transaction_store::*;
use crate::store::transaction_store_backend::*;
use crate::store::transaction_store_backend_trait::*;
// ---- tokio's locks (assumed): readers share, a writer is alone, and a guard holds the lock for as long as it lives.
// Each lock of the state holds, next to its value, one half of a ghost token: the store the overlays belong to. Whoever has both
// guards has both halves, and they agree; both halves of writers together can be moved to another store.
/// what a query may see: a store and the overlays made for it
pub ghost struct Pair { pub store: IndexedStore, pub augs: Seq<TransactionStoreAugmentation> }
/// the state before an update, or the state after it, of the indexer the locks belong to
pub uninterp spec fn published(fam: int, p: Pair) -> bool;
/// what the state is while the one task that updates it is at work (there is one: `main` starts it)
pub uninterp spec fn before(fam: int) -> Pair;
pub trait XPart: Sized {
    /// the value is what the token says
    spec fn settles(&self, tok: IndexedStore) -> bool;
    /// it may be seen with that store
    spec fn visible(&self, fam: int, tok: IndexedStore) -> bool;
    spec fn is_before(&self, fam: int) -> bool;
}
impl XPart for IndexedStore {
    open spec fn settles(&self, tok: IndexedStore) -> bool { *self == tok }
    open spec fn visible(&self, fam: int, tok: IndexedStore) -> bool { true }
    open spec fn is_before(&self, fam: int) -> bool { *self == before(fam).store }
}
impl XPart for Vec<TransactionStoreAugmentation> {
    open spec fn settles(&self, tok: IndexedStore) -> bool { true }
    open spec fn visible(&self, fam: int, tok: IndexedStore) -> bool { published(fam, Pair { store: tok, augs: self@ }) }
    open spec fn is_before(&self, fam: int) -> bool { self@ == before(fam).augs }
}
pub struct XRead<'a, T> { pub v: &'a T, pub fam: Ghost<int>, pub tok: Ghost<IndexedStore> }
pub struct XWrite<'a, T> { pub v: &'a mut T, pub fam: Ghost<int>, pub tok: Ghost<IndexedStore> }
pub trait XGuard: Sized {
    spec fn family(&self) -> int;
    spec fn token(&self) -> IndexedStore;
}
impl<'a, T: XPart> XGuard for XRead<'a, T> {
    open spec fn family(&self) -> int { self.fam@ }
    open spec fn token(&self) -> IndexedStore { self.tok@ }
}
impl<'a, T: XPart> XGuard for XWrite<'a, T> {
    open spec fn family(&self) -> int { self.fam@ }
    open spec fn token(&self) -> IndexedStore { self.tok@ }
}
/// the first lock is held while the second one is waited for: their places in the order of the locks
pub fn x_ordered(held: &str, waited_for: &str, a: usize, b: usize)
    requires a < b,
{}
/// the end of a read guard
#[verifier::external_body]
pub fn x_release<G: XGuard>(g: G) { unimplemented!() }
/// both guards are alive here
#[verifier::external_body]
pub fn x_agree<G: XGuard, H: XGuard>(g: &G, h: &H)
    ensures g.family() == h.family() ==> g.token() == h.token(),
{ unimplemented!() }
/// both halves are in one hand
#[verifier::external_body]
pub fn x_join<'a, 'b, T: XPart, U: XPart>(g: &mut XWrite<'a, T>, h: &mut XWrite<'b, U>)
    requires old(g).fam@ == old(h).fam@,
    ensures
        final(g).v == old(g).v, final(h).v == old(h).v, final(g).fam@ == old(g).fam@, final(h).fam@ == old(h).fam@,
        final(g).tok@ == final(h).tok@, final(g).v.settles(final(g).tok@), final(h).v.settles(final(h).tok@),
{ unimplemented!() }
/// nothing was published yet
#[verifier::external_body]
pub struct XFresh { opaque: () }
impl XFresh {
    pub uninterp spec fn is(&self) -> bool;
}
#[verifier::external_body]
pub fn x_fresh() -> (r: XFresh)
    ensures r.is(),
{ unimplemented!() }
/// the end of a write guard
#[verifier::external_body]
pub fn x_publish<'a, T: XPart>(g: XWrite<'a, T>, fresh: &mut XFresh)
    requires g.v.settles(g.tok@), g.v.visible(g.fam@, g.tok@),
    ensures !final(fresh).is(),
{ unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct XRwLock<T> { opaque: std::cell::UnsafeCell<T> }
impl<T: XPart> XRwLock<T> {
    /// the state it is a part of
    pub uninterp spec fn fam(&self) -> int;
    #[verifier::external_body]
    pub fn new(v: T) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&self) -> (r: XRead<'_, T>)
        ensures r.fam@ == self.fam(), r.v.settles(r.tok@), r.v.visible(r.fam@, r.tok@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&self, fresh: &mut XFresh) -> (r: XWrite<'_, T>)
        ensures
            r.fam@ == self.fam(), r.v.settles(r.tok@), r.v.visible(r.fam@, r.tok@), final(fresh).is() == old(fresh).is(),
            old(fresh).is() ==> r.tok@ == before(r.fam@).store && r.v.is_before(r.fam@),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct XMutex<T> { opaque: std::cell::UnsafeCell<T> }
impl<T> XMutex<T> {
    #[verifier::external_body]
    pub fn new(v: T) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_lock(&self) -> (r: Result<(), ()>) { unimplemented!() }
}
// ---- what an update leads to
impl Pair {
    /// a store and the overlays made for it
    pub open spec fn sound(self) -> bool {
        self.store.wf() && exists|b: Seq<Block>, pool: Seq<Transaction>| self.made(b, pool)
    }
    pub open spec fn made(self, b: Seq<Block>, pool: Seq<Transaction>) -> bool { overlays(self.augs, self.store.utxos(), b, pool) && self.augs.len() == b.len() + 1 }
    /// the answer for an address at `c` confirmations
    pub open spec fn answer(self, c: int, a: Address) -> Listing {
        let (b, pool) = choose|b: Seq<Block>, pool: Seq<Transaction>| self.made(b, pool);
        by_addr(seen(self.store.utxos(), b, pool, c), a)
    }
}
/// what the update makes of the pair
pub open spec fn came_of(p: Pair, update: Update, q: Pair) -> bool {
    match update {
        Update::LastAugmentationUpdate(a) => q.store == p.store && q.augs == (if p.augs.len() > 0 { p.augs.drop_last() } else { p.augs }).push(a),
        Update::AugmentationsUpdate(augs, blocks) => {
            &&& q.augs == augs@ && (blocks@.len() == 0 ==> q.store == p.store)
            &&& q.store.headers() == p.store.headers() + headers_of(blocks@) && q.store.utxos() == apply_txs(p.store.utxos(), txs_of(blocks@))
        },
    }
}
/// the update can be applied to the pair (`compute_update` and `lemma_applied` of the sequential proof)
pub open spec fn fits(p: Pair, update: Update) -> bool {
    match update {
        Update::LastAugmentationUpdate(a) => true,
        Update::AugmentationsUpdate(augs, blocks) => {
            &&& p.store.wf() && p.store.strict() && takes(p.store, txs_of(blocks@)) && txs_spendable(p.store.utxos(), txs_of(blocks@))
            &&& chained(p.store.headers() + headers_of(blocks@))
        },
    }
}
/// every outcome of an update is one that may be seen
pub open spec fn may_lead(fam: int, update: Update) -> bool { forall|q: Pair| came_of(before(fam), update, q) ==> #[trigger] published(fam, q) }
pub open spec fn may_follow(fam: int) -> bool { forall|u: Update| #[trigger] fits(before(fam), u) ==> may_lead(fam, u) }
pub open spec fn all_sound(fam: int) -> bool { forall|p: Pair| #[trigger] published(fam, p) ==> p.sound() }
pub open spec fn deep_enough(fam: int, c: int) -> bool { forall|p: Pair| #[trigger] published(fam, p) ==> c <= p.augs.len() || may_panic() }
pub open spec fn fair_totals(fam: int, c: int) -> bool { forall|p: Pair, a: Address| #[trigger] published(fam, p) ==> total(#[trigger] p.answer(c, a)) <= u64::MAX }
pub open spec fn balances(r: Seq<(Address, u64)>, p: Pair, c: int, addresses: Seq<Address>) -> bool {
    r.len() == addresses.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 == addresses[i] && r[i].1 == total(p.answer(c, addresses[i]))
}
pub open spec fn listings(r: Seq<(Address, Vec<(TransactionOutput, u64)>)>, p: Pair, c: int, addresses: Seq<Address>) -> bool {
    r.len() == addresses.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 == addresses[i] && lists(r[i].1@, p.answer(c, addresses[i]))
}
//@ impl State
/// the locks of one state
pub open spec fn paired(&self) -> bool { self.store.fam() == self.augmentations.fam() }
pub open spec fn fam(&self) -> int { self.store.fam() }
//@ fn State::new
//@ external
//@ fn State::compute_update
//@ external
//@ ret r
ensures fits(before(self.fam()), r),
//@ fn State::apply_update
//@ ret r
requires self.paired(), fits(before(self.fam()), update), may_lead(self.fam(), update),
//@ at start
let ghost p0 = before(self.fam());
let ghost up = update;
//@ at loop 0 before
let ghost m = blocks@;
let ghost s0 = *__vx_g_store.v;
proof { assert(m.take(0) =~= Seq::empty()); assert(p0.store.headers() + headers_of(m.take(0)) =~= p0.store.headers()); }
//@ loop 0
invariant
    m == blocks@, it0.seq().len() == m.len(), forall|i: int| 0 <= i < m.len() ==> *#[trigger] it0.seq()[i] == m[i],
    s0 == p0.store, takes(s0, txs_of(m)), txs_spendable(s0.utxos(), txs_of(m)), chained(s0.headers() + headers_of(m)),
    __vx_g_store.v.wf(), __vx_g_store.v.strict(), __vx_g_store.v.headers() == s0.headers() + headers_of(m.take(it0.index() as int)),
    __vx_g_store.v.utxos() == apply_txs(s0.utxos(), txs_of(m.take(it0.index() as int))),
//@ at loop 0 start
let ghost k = it0.index() as int;
proof { assert(*block == m[k]); lemma_step(s0, s0.headers(), m, k); }
//@ at loop 0 after
proof { assert(m.take(m.len() as int) =~= m); }
//@ fn State::update
//@ ret r
requires self.paired(), may_follow(self.fam()),
//@ fn State::confirmations
//@ fn State::augmented_store
//@ ret r
requires
    store.wf(), confirmations <= augmentations@.len() || may_panic(),
    exists|b: Seq<Block>, pool: Seq<Transaction>| #[trigger] overlays(augmentations@, store.utxos(), b, pool) && augmentations@.len() == b.len() + 1,
ensures
    confirmations <= augmentations@.len(), r.backend.rwf(),
    forall|a: Address| #[trigger] r.backend.s_list(a) == (Pair { store: *store, augs: augmentations@ }).answer(confirmations as int, a),
//@ at start
let ghost p = Pair { store: *store, augs: augmentations@ };
let ghost (b, pool) = choose|b: Seq<Block>, pool: Seq<Transaction>| p.made(b, pool);
proof {
    let (b1, pool1) = choose|b: Seq<Block>, pool: Seq<Transaction>| #[trigger] overlays(augmentations@, store.utxos(), b, pool) && augmentations@.len() == b.len() + 1;
    assert(p.made(b1, pool1));
}
//@ fn State::balance
//@ ret r
requires self.paired(), all_sound(self.fam()), deep_enough(self.fam(), confirmations as int), fair_totals(self.fam(), confirmations as int),
ensures exists|p: Pair| #[trigger] published(self.fam(), p) && confirmations <= p.augs.len() && r == total(p.answer(confirmations as int, *address)),
//@ at call augmented_store before
let ghost p = Pair { store: *__vx_g_store.v, augs: __vx_g_augmentations.v@ };
proof { assert(published(self.fam(), p)); }
//@ fn State::iterate_transaction_outputs
//@ ret r
requires self.paired(), all_sound(self.fam()), deep_enough(self.fam(), confirmations as int),
ensures exists|p: Pair| #[trigger] published(self.fam(), p) && confirmations <= p.augs.len() && lists(r@, p.answer(confirmations as int, *address)),
//@ at call augmented_store before
let ghost p = Pair { store: *__vx_g_store.v, augs: __vx_g_augmentations.v@ };
proof { assert(published(self.fam(), p)); }
//@ fn State::balance_array
//@ ret r
requires self.paired(), all_sound(self.fam()), deep_enough(self.fam(), confirmations as int), fair_totals(self.fam(), confirmations as int),
ensures exists|p: Pair| #[trigger] published(self.fam(), p) && confirmations <= p.augs.len() && balances(r@, p, confirmations as int, addresses@),
//@ at call augmented_store before
let ghost p = Pair { store: *__vx_g_store.v, augs: __vx_g_augmentations.v@ };
proof { assert(published(self.fam(), p)); }
//@ at loop 0 before
let ghost (src, c) = (addresses@, confirmations as int);
proof { assert(src.take(0) =~= Seq::empty()); }
//@ loop 0
invariant
    it0.seq() == src, c == confirmations, store.backend.rwf(), forall|a: Address| #[trigger] store.backend.s_list(a) == p.answer(c, a),
    published(self.fam(), p), fair_totals(self.fam(), c),
    balances(__vx_v1@, p, c, src.take(it0.index() as int)), it0.index() == it0.seq().len() ==> balances(__vx_v1@, p, c, src),
//@ at loop 0 end
proof { let k = it0.index() as int; if k + 1 == src.len() { assert(src.take(k + 1) =~= src); } }
//@ fn State::transaction_outputs_array
//@ ret r
requires self.paired(), all_sound(self.fam()), deep_enough(self.fam(), confirmations as int),
ensures exists|p: Pair| #[trigger] published(self.fam(), p) && confirmations <= p.augs.len() && listings(r@, p, confirmations as int, addresses@),
//@ at call augmented_store before
let ghost p = Pair { store: *__vx_g_store.v, augs: __vx_g_augmentations.v@ };
proof { assert(published(self.fam(), p)); }
//@ at loop 0 before
let ghost (src, c) = (addresses@, confirmations as int);
proof { assert(src.take(0) =~= Seq::empty()); }
//@ loop 0
invariant
    it0.seq() == src, c == confirmations, store.backend.rwf(), forall|a: Address| #[trigger] store.backend.s_list(a) == p.answer(c, a),
    listings(__vx_v1@, p, c, src.take(it0.index() as int)), it0.index() == it0.seq().len() ==> listings(__vx_v1@, p, c, src),
//@ at loop 0 end
proof { let k = it0.index() as int; if k + 1 == src.len() { assert(src.take(k + 1) =~= src); } }
//@ at let __vx_src0
let ghost found = __vx_src0@;
proof { assert(found.take(0) =~= Seq::empty()); if found.len() == 0 { assert(found.take(0) =~= found); } }
//@ loop 1
invariant it1.seq() == found, so_far(utxos@, found, it1.index() as int),
//@ at loop 1 end
proof { let j = it1.index() as int; assert(utxos@ =~= found.take(j + 1)); if j + 1 == found.len() { assert(found.take(j + 1) =~= found); } }
//@ fn State::write
//@ external
