//@ file store/transaction_store.rs
//@ top
broadcast use {crate::shim::shim_axioms, vstd::std_specs::hash::group_hash_axioms, crate::hashmap::group_keys};
use super::transaction_store_backend_trait::*;
use super::transaction_store_backend::{turned, overlaid, list_overlaid, utxo_recs, utxos_ok, utxos_end, entries};
use crate::hashmap::listing;
use crate::address::script_addr;
/// the input of a coinbase transaction: it spends nothing
pub open spec fn coinbase(t: TransactionOutput) -> bool { t.hash@ == Seq::new(32, |i: int| 0u8) && t.index == u32::MAX }
pub open spec fn zeroed(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] == 0 }
/// the value a coinbase input has
pub proof fn lemma_coinbase(t: TransactionOutput)
    ensures
        coinbase(t) ==> t.hash == arr::<32>(Seq::new(32, |i: int| 0u8)),
        forall|z: [u8; 32]| #![trigger z@] zeroed(z@) ==> z == arr::<32>(Seq::new(32, |i: int| 0u8)),
{
    let s = Seq::new(32, |i: int| 0u8);
    assert forall|z: [u8; 32]| #![trigger z@] zeroed(z@) implies z == arr::<32>(s) by { assert(z@ =~= s); }
    assert(arr::<32>(s)@ == s);
    if coinbase(t) { assert(t.hash@ == s); assert(arr::<32>(t.hash@) == t.hash); }
}
/// what is left of `u` after spending `txos`
pub open spec fn spent(u: Utxos, txos: Seq<TransactionOutput>) -> Utxos
    decreases txos.len(),
{
    if txos.len() == 0 { u } else if coinbase(txos.last()) { spent(u, txos.drop_last()) } else { spent(u, txos.drop_last()).remove(txos.last()) }
}
/// every one of `txos` is unspent when its turn comes
pub open spec fn spendable(u: Utxos, txos: Seq<TransactionOutput>) -> bool
    decreases txos.len(),
{
    txos.len() > 0 ==> spendable(u, txos.drop_last()) && (coinbase(txos.last()) || spent(u, txos.drop_last()).contains_key(txos.last()))
}
/// those of `txos` that are not unspent when their turn comes
pub open spec fn misses(u: Utxos, txos: Seq<TransactionOutput>) -> Seq<TransactionOutput>
    decreases txos.len(),
{
    if txos.len() == 0 { Seq::empty() } else {
        let m = misses(u, txos.drop_last());
        if coinbase(txos.last()) || spent(u, txos.drop_last()).contains_key(txos.last()) { m } else { m.push(txos.last()) }
    }
}
pub open spec fn op_return(script: Seq<u8>) -> bool { script.len() > 0 && script[0] == 0x6a }
/// the id of the i-th output of a transaction
pub open spec fn out_id(tx: Transaction, i: int) -> TransactionOutput { TransactionOutput { hash: tx.hash, index: i as u32 } }
/// `u` with the first n outputs of a transaction
pub open spec fn created(u: Utxos, tx: Transaction, n: int) -> Utxos
    decreases n,
{
    if n <= 0 { u } else {
        let p = created(u, tx, n - 1);
        let o = tx.outputs@[n - 1];
        if op_return(o.script@) { p } else { p.insert(out_id(tx, n - 1), (o.value, script_addr(o.script@))) }
    }
}
pub open spec fn apply_tx(u: Utxos, tx: Transaction) -> Utxos { created(spent(u, tx.inputs@), tx, tx.outputs@.len() as int) }
pub open spec fn apply_txs(u: Utxos, txs: Seq<Transaction>) -> Utxos
    decreases txs.len(),
{ if txs.len() == 0 { u } else { apply_tx(apply_txs(u, txs.drop_last()), txs.last()) } }
pub open spec fn txs_spendable(u: Utxos, txs: Seq<Transaction>) -> bool
    decreases txs.len(),
{ txs.len() > 0 ==> txs_spendable(u, txs.drop_last()) && spendable(apply_txs(u, txs.drop_last()), txs.last().inputs@) }
pub open spec fn txs_misses(u: Utxos, txs: Seq<Transaction>) -> Seq<TransactionOutput>
    decreases txs.len(),
{ if txs.len() == 0 { Seq::empty() } else { txs_misses(u, txs.drop_last()) + misses(apply_txs(u, txs.drop_last()), txs.last().inputs@) } }
/// the backend can take the transaction's outputs on top of `u`, and their indexes fit
pub open spec fn tx_fits<T: TransactionStoreBackendTrait>(u: Utxos, tx: Transaction) -> bool {
    &&& tx.outputs@.len() <= 0x1_0000_0000
    &&& forall|i: int| 0 <= i < tx.outputs@.len() && !op_return(tx.outputs@[i].script@)
            ==> T::addable(held(spent(u, tx.inputs@), #[trigger] out_id(tx, i)), script_addr(tx.outputs@[i].script@))
}
pub open spec fn txs_fit<T: TransactionStoreBackendTrait>(u: Utxos, txs: Seq<Transaction>) -> bool
    decreases txs.len(),
{ txs.len() > 0 ==> txs_fit::<T>(u, txs.drop_last()) && tx_fits::<T>(apply_txs(u, txs.drop_last()), txs.last()) }
pub proof fn lemma_created_other(u: Utxos, tx: Transaction, n: int, t: TransactionOutput)
    requires n <= 0x1_0000_0000, forall|i: int| 0 <= i < n ==> #[trigger] out_id(tx, i) != t,
    ensures held(created(u, tx, n), t) == held(u, t),
    decreases n,
{ if n > 0 { lemma_created_other(u, tx, n - 1, t); assert(out_id(tx, n - 1) != t); } }
/// applying in two parts
pub proof fn lemma_apply_split(u: Utxos, a: Seq<Transaction>, b: Seq<Transaction>)
    ensures
        apply_txs(u, a + b) == apply_txs(apply_txs(u, a), b),
        txs_spendable(u, a + b) == (txs_spendable(u, a) && txs_spendable(apply_txs(u, a), b)),
        txs_misses(u, a + b) == txs_misses(u, a) + txs_misses(apply_txs(u, a), b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(txs_misses(u, a) + Seq::empty() =~= txs_misses(u, a)); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_apply_split(u, a, b.drop_last());
        assert(txs_misses(u, a + b) =~= txs_misses(u, a) + txs_misses(apply_txs(u, a), b));
    }
}
pub proof fn lemma_fit_split<T: TransactionStoreBackendTrait>(u: Utxos, a: Seq<Transaction>, b: Seq<Transaction>)
    ensures txs_fit::<T>(u, a + b) == (txs_fit::<T>(u, a) && txs_fit::<T>(apply_txs(u, a), b)),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_fit_split::<T>(u, a, b.drop_last());
        lemma_apply_split(u, a, b.drop_last());
    }
}
/// a prefix of what is spendable, fits, is so too
pub proof fn lemma_spend_prefix(u: Utxos, txos: Seq<TransactionOutput>, n: int)
    requires 0 <= n <= txos.len(), spendable(u, txos),
    ensures spendable(u, txos.take(n)),
    decreases txos.len() - n,
{
    if n < txos.len() { lemma_spend_prefix(u, txos, n + 1); assert(txos.take(n + 1).drop_last() =~= txos.take(n)); } else { assert(txos.take(n) =~= txos); }
}
pub proof fn lemma_txs_prefix<T: TransactionStoreBackendTrait>(u: Utxos, txs: Seq<Transaction>, n: int)
    requires 0 <= n <= txs.len(),
    ensures txs_spendable(u, txs) ==> txs_spendable(u, txs.take(n)), txs_fit::<T>(u, txs) ==> txs_fit::<T>(u, txs.take(n)),
    decreases txs.len() - n,
{
    if n < txs.len() { lemma_txs_prefix::<T>(u, txs, n + 1); assert(txs.take(n + 1).drop_last() =~= txs.take(n)); } else { assert(txs.take(n) =~= txs); }
}
/// the unspent outputs of an intermediary store, put on top of `u` one by one
pub open spec fn put(u: Utxos, s: Seq<(&TransactionOutput, &(Option<Address>, u64))>, n: int) -> Utxos
    decreases n,
{ if n <= 0 { u } else { put(u, s, n - 1).insert(*s[n - 1].0, (s[n - 1].1.1, s[n - 1].1.0)) } }
pub open spec fn among(s: Seq<(&TransactionOutput, &(Option<Address>, u64))>, n: int, t: TransactionOutput) -> bool { exists|i: int| 0 <= i < n && *(#[trigger] s[i]).0 == t }
pub proof fn lemma_put(u: Utxos, s: Seq<(&TransactionOutput, &(Option<Address>, u64))>, n: int, m: Map<TransactionOutput, (Option<Address>, u64)>)
    requires listing(s, m), 0 <= n <= s.len(),
    ensures forall|t: TransactionOutput| held(put(u, s, n), t) == if #[trigger] among(s, n, t) { Some((m[t].1, m[t].0)) } else { held(u, t) },
    decreases n,
{
    if n > 0 {
        lemma_put(u, s, n - 1, m);
        let (p, q) = (put(u, s, n - 1), put(u, s, n));
        assert(m.contains_pair(*s[n - 1].0, *s[n - 1].1));
        assert forall|t: TransactionOutput| held(put(u, s, n), t) == if #[trigger] among(s, n, t) { Some((m[t].1, m[t].0)) } else { held(u, t) } by {
            assert(held(p, t) == if among(s, n - 1, t) { Some((m[t].1, m[t].0)) } else { held(u, t) });
            if t == *s[n - 1].0 { assert(among(s, n, t)); }
            else { assert(among(s, n, t) == among(s, n - 1, t)); }
        }
    }
}
pub proof fn lemma_put_all(u: Utxos, s: Seq<(&TransactionOutput, &(Option<Address>, u64))>, m: Map<TransactionOutput, (Option<Address>, u64)>)
    ensures listing(s, m) ==> put(u, s, s.len() as int) == u.union_prefer_right(turned(m)),
{
    if listing(s, m) {
        lemma_put(u, s, s.len() as int, m);
        let (p, w) = (put(u, s, s.len() as int), u.union_prefer_right(turned(m)));
        assert forall|t: TransactionOutput| held(p, t) == #[trigger] held(w, t) by {
            assert(held(p, t) == if among(s, s.len() as int, t) { Some((m[t].1, m[t].0)) } else { held(u, t) });
            if m.contains_key(t) {
                assert(s.contains((&t, &m[t])));
                let i = choose|i: int| 0 <= i < s.len() && s[i] == (&t, &m[t]);
                assert(*s[i].0 == t);
            } else if among(s, s.len() as int, t) {
                let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == t;
                assert(m.contains_pair(*s[i].0, *s[i].1));
            }
        }
        assert forall|t: TransactionOutput| #[trigger] p.dom().contains(t) == w.dom().contains(t) by { assert(held(p, t) == held(w, t)); assert(p.contains_key(t) == (held(p, t) is Some)); }
        assert forall|t: TransactionOutput| p.dom().contains(t) implies #[trigger] p[t] == w[t] by { assert(held(p, t) == held(w, t)); }
        assert(p.dom() =~= w.dom());
        assert(p =~= w);
    }
}
pub proof fn lemma_put_next(u: Utxos, s: Seq<(&TransactionOutput, &(Option<Address>, u64))>, n: int, m: Map<TransactionOutput, (Option<Address>, u64)>)
    ensures listing(s, m) && 0 <= n < s.len() ==> held(put(u, s, n), *s[n].0) == held(u, *s[n].0) && turned(m).contains_key(*s[n].0) && turned(m)[*s[n].0] == (s[n].1.1, s[n].1.0),
{
    if listing(s, m) && 0 <= n < s.len() {
        lemma_put(u, s, n, m);
        assert(m.contains_pair(*s[n].0, *s[n].1));
        if among(s, n, *s[n].0) {
            let i = choose|i: int| 0 <= i < n && *(#[trigger] s[i]).0 == *s[n].0;
            assert(m.contains_pair(*s[i].0, *s[i].1));
            assert(s[i] == s[n]);
        }
    }
}
/// the outputs of `w` can be added to `u`
pub open spec fn all_fit<T: TransactionStoreBackendTrait>(u: Utxos, w: Utxos) -> bool { forall|t: TransactionOutput| #[trigger] w.contains_key(t) ==> T::addable(held(u, t), w[t].1) }
//@ trait ScriptExt
spec fn s_script(&self) -> Seq<u8>;
//@ fn ScriptExt::starts_with_OP_RETURN
//@ ret r
ensures r == op_return(self.s_script()),
//@ impl Vec as ScriptExt
open spec fn s_script(&self) -> Seq<u8> { self@ }
//@ impl TransactionStore
pub open spec fn wf(&self) -> bool { self.backend.wf() }
pub open spec fn utxos(&self) -> Utxos { self.backend.utxos() }
pub open spec fn below(&self) -> Utxos { self.backend.below() }
pub open spec fn debts(&self) -> Seq<TransactionOutput> { self.backend.debts() }
//@ fn TransactionStore::backend
//@ ret r
ensures *r == self.backend,
//@ fn TransactionStore::mut_backend
//@ ret r
ensures *r == old(self).backend, final(self).backend == *final(r), final(self).strict == old(self).strict,
//@ fn TransactionStore::take_backend
//@ ret r
ensures r == self.backend,
//@ fn TransactionStore::spend_transaction_outputs
requires
    old(self).wf(),
    old(self).strict ==> spendable(old(self).utxos(), txos@) || may_panic(),
ensures
    final(self).wf(), final(self).strict == old(self).strict, final(self).below() == old(self).below(),
    old(self).strict ==> spendable(old(self).utxos(), txos@),
    final(self).utxos() == spent(old(self).utxos(), txos@),
    final(self).debts() == if T::keeps() { old(self).debts() + misses(old(self).utxos(), txos@) } else { old(self).debts() },
//@ at start
let ghost (u, d) = (self.utxos(), self.debts());
//@ loop 0
invariant
    it0.seq().len() == txos@.len(), forall|i: int| 0 <= i < txos@.len() ==> *#[trigger] it0.seq()[i] == txos@[i],
    self.wf(), self.strict == old(self).strict, self.below() == old(self).below(), u == old(self).utxos(), d == old(self).debts(),
    self.strict ==> spendable(u, txos@) || may_panic(),
    self.strict ==> spendable(u, txos@.take(it0.index() as int)),
    self.utxos() == spent(u, txos@.take(it0.index() as int)),
    self.debts() == if T::keeps() { d + misses(u, txos@.take(it0.index() as int)) } else { d },
//@ at loop 0 before
proof { assert(d + Seq::<TransactionOutput>::empty() =~= d); }
//@ at loop 0 start
let ghost (k, d1) = (it0.index() as int, self.debts());
proof {
    assert(txos@.take(k + 1).drop_last() =~= txos@.take(k));
    assert(*txo == txos@[k]);
    if spendable(u, txos@) { lemma_spend_prefix(u, txos@, k + 1); }
    lemma_coinbase(*txo);
}
//@ at loop 0 end
proof { if T::keeps() { assert(self.debts() =~= d + misses(u, txos@.take(k + 1))); } }
//@ at end
proof { assert(txos@.take(txos@.len() as int) =~= txos@); }
//@ fn TransactionStore::can_add_transaction
//@ ret r
requires self.wf(),
ensures r == forall|i: int| 0 <= i < transaction.inputs@.len() ==> self.utxos().contains_key(#[trigger] transaction.inputs@[i]),
//@ loop 0
invariant
    self.wf(),
    it0.seq().len() == transaction.inputs@.len(), forall|i: int| 0 <= i < transaction.inputs@.len() ==> *#[trigger] it0.seq()[i] == transaction.inputs@[i],
    forall|i: int| 0 <= i < it0.index() ==> self.utxos().contains_key(#[trigger] transaction.inputs@[i]),
//@ at loop 0 start
assert(*txo == transaction.inputs@[it0.index() as int]);
//@ fn TransactionStore::add_transaction
requires
    old(self).wf(), tx_fits::<T>(old(self).utxos(), *transaction),
    old(self).strict ==> spendable(old(self).utxos(), transaction.inputs@) || may_panic(),
ensures
    final(self).wf(), final(self).strict == old(self).strict, final(self).below() == old(self).below(),
    old(self).strict ==> spendable(old(self).utxos(), transaction.inputs@),
    final(self).utxos() == apply_tx(old(self).utxos(), *transaction),
    final(self).debts() == if T::keeps() { old(self).debts() + misses(old(self).utxos(), transaction.inputs@) } else { old(self).debts() },
//@ at start
let ghost u = spent(self.utxos(), transaction.inputs@);
//@ loop 0
invariant
    it0.seq().len() == transaction.outputs@.len(), forall|i: int| 0 <= i < transaction.outputs@.len() ==> *#[trigger] it0.seq()[i] == transaction.outputs@[i],
    __n_index == it0.index(), u == spent(old(self).utxos(), transaction.inputs@),
    tx_fits::<T>(old(self).utxos(), *transaction),
    self.wf(), self.strict == old(self).strict, self.below() == old(self).below(),
    self.utxos() == created(u, *transaction, it0.index() as int),
    self.debts() == if T::keeps() { old(self).debts() + misses(old(self).utxos(), transaction.inputs@) } else { old(self).debts() },
//@ at loop 0 start
let ghost k = it0.index() as int;
proof {
    assert(*output == transaction.outputs@[k]);
    assert forall|i: int| 0 <= i < k implies #[trigger] out_id(*transaction, i) != out_id(*transaction, k) by {}
    lemma_created_other(u, *transaction, k, out_id(*transaction, k));
}
//@ fn TransactionStore::add_block
requires
    old(self).wf(), block.s_ok(), txs_fit::<T>(old(self).utxos(), block.s_txs()),
    old(self).strict ==> txs_spendable(old(self).utxos(), block.s_txs()) || may_panic(),
ensures
    final(self).wf(), final(self).strict == old(self).strict, final(self).below() == old(self).below(),
    old(self).strict ==> txs_spendable(old(self).utxos(), block.s_txs()),
    final(self).utxos() == apply_txs(old(self).utxos(), block.s_txs()),
    final(self).debts() == if T::keeps() { old(self).debts() + txs_misses(old(self).utxos(), block.s_txs()) } else { old(self).debts() },
//@ at start
let ghost (u, d, txs) = (self.utxos(), self.debts(), block.s_txs());
//@ loop 0
invariant
    it0.seq() == txs, txs == block.s_txs(), u == old(self).utxos(), d == old(self).debts(),
    txs_fit::<T>(u, txs), self.strict ==> txs_spendable(u, txs) || may_panic(),
    self.wf(), self.strict == old(self).strict, self.below() == old(self).below(),
    self.strict ==> txs_spendable(u, txs.take(it0.index() as int)),
    self.utxos() == apply_txs(u, txs.take(it0.index() as int)),
    self.debts() == if T::keeps() { d + txs_misses(u, txs.take(it0.index() as int)) } else { d },
//@ at loop 0 before
proof { assert(d + Seq::<TransactionOutput>::empty() =~= d); }
//@ at loop 0 start
let ghost k = it0.index() as int;
proof {
    assert(txs.take(k + 1).drop_last() =~= txs.take(k));
    lemma_txs_prefix::<T>(u, txs, k + 1);
}
//@ at loop 0 end
proof { if T::keeps() { assert(self.debts() =~= d + txs_misses(u, txs.take(k + 1))); } }
//@ at end
proof { assert(txs.take(txs.len() as int) =~= txs); }
//@ fn IndexedTransactionStore::new
//@ ret r
ensures r.wf(), r.strict == strict, r.utxos() == Map::<TransactionOutput, (u64, Option<Address>)>::empty(),
//@ fn IndexedTransactionStore::large
//@ ret r
ensures r.wf(), r.strict, r.utxos() == Map::<TransactionOutput, (u64, Option<Address>)>::empty(),
//@ fn IndexedTransactionStore::from_reader
//@ ret r
requires old(reader).wf(), utxos_ok(old(reader).data(), old(reader).pos()),
ensures
    r.wf(), r.strict, r.utxos() == entries(utxo_recs(old(reader).data(), old(reader).pos())),
    HashingBufferReader::moved(*old(reader), *final(reader), utxos_end(old(reader).data(), old(reader).pos())),
//@ fn IntermediaryTransactionStore::new
//@ ret r
ensures r.wf(), !r.strict, r.utxos() == Map::<TransactionOutput, (u64, Option<Address>)>::empty(), r.debts() == Seq::<TransactionOutput>::empty(),
//@ fn IntermediaryTransactionStore::merge
requires
    old(store).wf(), old(store).strict ==> spendable(old(store).utxos(), self.debts()) || may_panic(),
    (old(store).strict ==> spendable(old(store).utxos(), self.debts())) ==> all_fit::<T>(spent(old(store).utxos(), self.debts()), self.utxos()),
ensures
    final(store).wf(), final(store).strict == old(store).strict,
    old(store).strict ==> spendable(old(store).utxos(), self.debts()),
    final(store).utxos() == spent(old(store).utxos(), self.debts()).union_prefer_right(self.utxos()),
//@ at loop 0 before
let ghost (u, m) = (store.utxos(), self.backend.unspent_txos.m());
proof { if m.len() == 0 { assert(m.dom() =~= Set::empty()); assert(u =~= u.union_prefer_right(turned(m))); } }
//@ loop 0
invariant
    listing(it0.seq(), m), turned(m) == self.utxos(), all_fit::<T>(u, turned(m)),
    store.wf(), store.strict == old(store).strict,
    store.utxos() == put(u, it0.seq(), it0.index() as int),
    it0.index() == it0.seq().len() ==> store.utxos() == u.union_prefer_right(turned(m)),
//@ at loop 0 start
proof { lemma_put_next(u, it0.seq(), it0.index() as int, m); }
//@ at loop 0 end
proof { lemma_put_all(u, it0.seq(), m); }
//@ fn AugmentedTransactionStore::new
//@ ret r
requires transaction_store.wf(),
ensures r.wf(), r.strict, r.utxos() == transaction_store.utxos(), r.backend.base_store == transaction_store.backend, r.below() == transaction_store.utxos(),
//@ fn AugmentedTransactionStore::augmentation
//@ ret r
ensures *r == self.backend.store,
//@ fn AugmentedTransactionStore::take_augmentation
//@ ret r
ensures r == self.backend.store, self.wf() ==> r.fits(self.below()), self.utxos() == r.over(self.below()),
//@ fn ReadonlyTransactionStore::new
//@ ret r
ensures r.backend == backend,
//@ fn ReadonlyTransactionStore::balance
//@ ret r
requires self.backend.rwf(), total(self.backend.s_list(*address)) <= u64::MAX,
ensures r == total(self.backend.s_list(*address)),
//@ fn ReadonlyTransactionStore::iterate_transaction_outputs
//@ ret r
requires self.backend.rwf(),
ensures lists(r@, self.backend.s_list(*address)),
//@ at end
proof { assert(Seq::<(TransactionOutput, u64)>::empty() + __vx_trace@ =~= __vx_trace@); }
