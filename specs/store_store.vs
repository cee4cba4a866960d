//@ file store/store.rs
//@ top
broadcast use {crate::shim::shim_axioms, vstd::std_specs::hash::group_hash_axioms, crate::hashmap::group_keys};
use super::transaction_store_backend_trait::*;
use super::transaction_store_backend::*;
use super::transaction_store::*;
use crate::batcher::{cat, cuts, lemma_cat};
use crate::block::all_ok;
use crate::thread_pool::results;
use crate::hashing_buffer_reader::{cut, le_at};
use crate::nums::*;
use crate::Transaction;
use crate::Address;
use crate::TransactionOutput;
use crate::address::script_addr;
// ---- headers
/// each one's parent is the one before
pub open spec fn chained(h: Seq<BlockHeader>) -> bool { forall|i: int| 0 < i < h.len() ==> (#[trigger] h[i]).previous_block_hash == h[i - 1].hash }
pub open spec fn links(h: Seq<BlockHeader>, x: BlockHeader) -> bool { h.len() > 0 ==> h.last().hash == x.previous_block_hash }
pub open spec fn headers_of<B: BlockTrait>(b: Seq<B>) -> Seq<BlockHeader> { Seq::new(b.len(), |i: int| b[i].s_header()) }
pub open spec fn txs_of<B: BlockTrait>(b: Seq<B>) -> Seq<Transaction>
    decreases b.len(),
{ if b.len() == 0 { Seq::empty() } else { txs_of(b.drop_last()) + b.last().s_txs() } }
pub proof fn lemma_chained_part(a: Seq<BlockHeader>, b: Seq<BlockHeader>, c: Seq<BlockHeader>)
    requires chained(a + b + c),
    ensures chained(a), chained(b), chained(a + b), b.len() > 0 ==> links(a, b[0]), c.len() > 0 ==> links(a + b, c[0]),
{
    let w = a + b + c;
    assert forall|i: int| 0 < i < (a + b).len() implies (#[trigger] (a + b)[i]).previous_block_hash == (a + b)[i - 1].hash by { assert(w[i] == (a + b)[i] && w[i - 1] == (a + b)[i - 1]); }
    assert forall|i: int| 0 < i < a.len() implies (#[trigger] a[i]).previous_block_hash == a[i - 1].hash by { assert(w[i] == a[i] && w[i - 1] == a[i - 1]); }
    assert forall|i: int| 0 < i < b.len() implies (#[trigger] b[i]).previous_block_hash == b[i - 1].hash by { assert(w[a.len() + i] == b[i] && w[a.len() + i - 1] == b[i - 1]); }
    if b.len() > 0 && a.len() > 0 { assert(w[a.len() as int] == b[0]); assert(w[a.len() - 1] == a.last()); }
    if c.len() > 0 && (a + b).len() > 0 { assert(w[(a + b).len() as int] == c[0]); assert(w[(a + b).len() - 1] == (a + b).last()); }
}
pub proof fn lemma_txs_of_split<B: BlockTrait>(a: Seq<B>, b: Seq<B>)
    ensures txs_of(a + b) == txs_of(a) + txs_of(b), headers_of(a + b) == headers_of(a) + headers_of(b),
    decreases b.len(),
{
    assert(headers_of(a + b) =~= headers_of(a) + headers_of(b));
    if b.len() == 0 { assert(a + b =~= a); assert(txs_of(a) + txs_of(b) =~= txs_of(a)); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_txs_of_split(a, b.drop_last());
        assert(txs_of(a + b) =~= txs_of(a) + txs_of(b));
    }
}
/// same headers and transactions
pub open spec fn alike<B: BlockTrait>(a: B, b: B) -> bool { a.s_header() == b.s_header() && a.s_txs() == b.s_txs() && a.s_ok() == b.s_ok() }
pub open spec fn cloning_keeps<B: BlockTrait + Clone>() -> bool { forall|a: B, b: B| #[trigger] call_ensures(B::clone, (&a,), b) ==> alike(a, b) }
pub proof fn lemma_clones<B: BlockTrait + Clone>(a: Seq<B>, b: Seq<B>)
    requires cloning_keeps::<B>(), cloned_seq(a, b),
    ensures headers_of(a) == headers_of(b), txs_of(a) == txs_of(b), all_ok(a) ==> all_ok(b),
    decreases a.len(),
{
    assert forall|i: int| 0 <= i < a.len() implies a[i].s_header() == b[i].s_header() && a[i].s_txs() == b[i].s_txs() && a[i].s_ok() == b[i].s_ok() by { assert(call_ensures(B::clone, (&a[i],), b[i])); assert(alike(a[i], b[i])); }
    assert(headers_of(a) =~= headers_of(b));
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.drop_last().len() implies call_ensures(B::clone, (&#[trigger] a.drop_last()[i],), b.drop_last()[i]) by { assert(call_ensures(B::clone, (&a[i],), b[i])); }
        lemma_clones(a.drop_last(), b.drop_last());
    }
}
// ---- building in batches
pub open spec fn nothing() -> Utxos { Map::empty() }
/// no output is created while an output with the same id is still unspent
pub open spec fn fresh_tx(u: Utxos, tx: Transaction) -> bool {
    &&& tx.outputs@.len() <= 0x1_0000_0000
    &&& forall|i: int| 0 <= i < tx.outputs@.len() && !op_return(tx.outputs@[i].script@) ==> !spent(u, tx.inputs@).contains_key(#[trigger] out_id(tx, i))
}
pub open spec fn fresh(u: Utxos, txs: Seq<Transaction>) -> bool
    decreases txs.len(),
{ txs.len() > 0 ==> fresh(u, txs.drop_last()) && fresh_tx(apply_txs(u, txs.drop_last()), txs.last()) }
pub proof fn lemma_fresh_split(u: Utxos, a: Seq<Transaction>, b: Seq<Transaction>)
    ensures fresh(u, a + b) == (fresh(u, a) && fresh(apply_txs(u, a), b)),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_fresh_split(u, a, b.drop_last());
        lemma_apply_split(u, a, b.drop_last());
    }
}
pub proof fn lemma_fresh_fits<T: TransactionStoreBackendTrait>(u: Utxos, txs: Seq<Transaction>)
    requires fresh(u, txs),
    ensures txs_fit::<T>(u, txs),
    decreases txs.len(),
{
    if txs.len() > 0 {
        lemma_fresh_fits::<T>(u, txs.drop_last());
        let (v, tx) = (apply_txs(u, txs.drop_last()), txs.last());
        assert forall|i: int| 0 <= i < tx.outputs@.len() && !op_return(tx.outputs@[i].script@)
            implies T::addable(held(spent(v, tx.inputs@), #[trigger] out_id(tx, i)), script_addr(tx.outputs@[i].script@)) by {
            T::lemma_addable(script_addr(tx.outputs@[i].script@));
        }
    }
}
/// an intermediary store takes any transactions with a sane number of outputs
pub proof fn lemma_apart_fits(u: Utxos, v: Utxos, txs: Seq<Transaction>)
    requires fresh(u, txs),
    ensures txs_fit::<IntermediaryTransactionStoreBackend>(v, txs),
    decreases txs.len(),
{ if txs.len() > 0 { lemma_apart_fits(u, v, txs.drop_last()); } }
/// `g` is what spending `d` in `u` leaves, together with `i`, which is separate
pub open spec fn merged(u: Utxos, d: Seq<TransactionOutput>, i: Utxos, g: Utxos) -> bool {
    &&& spendable(u, d)
    &&& forall|t: TransactionOutput| #[trigger] i.contains_key(t) ==> !spent(u, d).contains_key(t)
    &&& g == spent(u, d).union_prefer_right(i)
}
pub proof fn lemma_merge_inputs(u: Utxos, d: Seq<TransactionOutput>, i: Utxos, g: Utxos, txos: Seq<TransactionOutput>)
    requires merged(u, d, i, g),
    ensures
        spendable(g, txos) == spendable(u, d + misses(i, txos)),
        spendable(g, txos) ==> merged(u, d + misses(i, txos), spent(i, txos), spent(g, txos)),
    decreases txos.len(),
{
    if txos.len() == 0 { assert(d + Seq::<TransactionOutput>::empty() =~= d); } else {
        let (r, t) = (txos.drop_last(), txos.last());
        lemma_merge_inputs(u, d, i, g, r);
        let (m, m2) = (misses(i, r), misses(i, txos));
        let (d1, i1, g1) = (d + m, spent(i, r), spent(g, r));
        if coinbase(t) {} else if i1.contains_key(t) {
            if spendable(g, r) { assert(spent(g, txos) =~= spent(u, d1).union_prefer_right(spent(i, txos))); }
        } else {
            assert(d + m2 =~= d1.push(t));
            assert(d1.push(t).drop_last() =~= d1);
            assert(spendable(u, d1.push(t)) == (spendable(u, d1) && spent(u, d1).contains_key(t)));
            if spendable(g, r) {
                assert(g1.contains_key(t) == spent(u, d1).contains_key(t));
                assert(i1.remove(t) =~= i1);
                assert(spent(g, txos) =~= spent(u, d1).remove(t).union_prefer_right(i1));
            }
        }
    }
}
pub proof fn lemma_merge_outputs(u: Utxos, d: Seq<TransactionOutput>, i: Utxos, g: Utxos, tx: Transaction, n: int)
    requires
        merged(u, d, i, g), 0 <= n <= tx.outputs@.len(),
        forall|k: int| 0 <= k < tx.outputs@.len() && !op_return(tx.outputs@[k].script@) ==> !g.contains_key(#[trigger] out_id(tx, k)),
    ensures merged(u, d, created(i, tx, n), created(g, tx, n)),
    decreases n,
{
    if n > 0 {
        lemma_merge_outputs(u, d, i, g, tx, n - 1);
        let o = tx.outputs@[n - 1];
        if !op_return(o.script@) {
            let (t, v) = (out_id(tx, n - 1), (o.value, script_addr(o.script@)));
            assert(!g.contains_key(t));
            assert(created(g, tx, n) =~= spent(u, d).union_prefer_right(created(i, tx, n)));
        }
    }
}
/// processing on its own and merging is the same as processing in place
pub proof fn lemma_batch(u: Utxos, txs: Seq<Transaction>)
    requires fresh(u, txs),
    ensures
        spendable(u, txs_misses(nothing(), txs)) == txs_spendable(u, txs),
        txs_spendable(u, txs) ==> merged(u, txs_misses(nothing(), txs), apply_txs(nothing(), txs), apply_txs(u, txs)),
    decreases txs.len(),
{
    if txs.len() == 0 { assert(u.union_prefer_right(nothing()) =~= u); } else {
        let (r, tx) = (txs.drop_last(), txs.last());
        lemma_batch(u, r);
        let (d, i, g) = (txs_misses(nothing(), r), apply_txs(nothing(), r), apply_txs(u, r));
        let e = d + misses(i, tx.inputs@);
        if txs_spendable(u, r) {
            lemma_merge_inputs(u, d, i, g, tx.inputs@);
            if spendable(g, tx.inputs@) { lemma_merge_outputs(u, e, spent(i, tx.inputs@), spent(g, tx.inputs@), tx, tx.outputs@.len() as int); }
        } else {
            if spendable(u, e) { lemma_spend_prefix(u, e, d.len() as int); assert(e.take(d.len() as int) =~= d); }
        }
    }
}
pub proof fn lemma_merged_fits<T: TransactionStoreBackendTrait>(u: Utxos, d: Seq<TransactionOutput>, i: Utxos, g: Utxos)
    requires merged(u, d, i, g),
    ensures all_fit::<T>(spent(u, d), i),
{ assert forall|t: TransactionOutput| #[trigger] i.contains_key(t) implies T::addable(held(spent(u, d), t), i[t].1) by { T::lemma_addable(i[t].1); } }
/// what processing `blocks` on its own gives
pub open spec fn processed<B: BlockTrait>(s: IntermediaryStore, blocks: Seq<B>) -> bool {
    &&& s.wf() && s.headers() == headers_of(blocks)
    &&& s.utxos() == apply_txs(nothing(), txs_of(blocks)) && s.debts() == txs_misses(nothing(), txs_of(blocks))
}
/// `blocks` can be processed on their own
pub open spec fn workable<B: BlockTrait>(blocks: Seq<B>) -> bool { all_ok(blocks) && chained(headers_of(blocks)) && txs_fit::<IntermediaryTransactionStoreBackend>(nothing(), txs_of(blocks)) }
pub proof fn lemma_workable<B: BlockTrait + Clone>(blocks: Seq<B>, ins: Seq<Vec<B>>, size: int)
    requires cloning_keeps::<B>(), cuts(ins, blocks, size), all_ok(blocks), chained(headers_of(blocks)), fresh(nothing(), txs_of(blocks)),
    ensures
        headers_of(cat(ins)) == headers_of(blocks), txs_of(cat(ins)) == txs_of(blocks), all_ok(cat(ins)),
        forall|i: int| 0 <= i < ins.len() ==> workable((#[trigger] ins[i])@),
{
    lemma_clones(blocks, cat(ins));
    assert forall|i: int| 0 <= i < ins.len() implies workable((#[trigger] ins[i])@) by { lemma_cut(ins, i); }
}
/// the i-th batch within the whole
pub proof fn lemma_cut<B: BlockTrait>(ins: Seq<Vec<B>>, i: int)
    requires all_ok(cat(ins)), chained(headers_of(cat(ins))), fresh(nothing(), txs_of(cat(ins))), 0 <= i < ins.len(),
    ensures
        workable(ins[i]@), fresh(apply_txs(nothing(), txs_of(cat(ins.take(i)))), txs_of(ins[i]@)),
        txs_of(cat(ins.take(i + 1))) == txs_of(cat(ins.take(i))) + txs_of(ins[i]@),
        headers_of(cat(ins.take(i + 1))) == headers_of(cat(ins.take(i))) + headers_of(ins[i]@),
        chained(headers_of(cat(ins.take(i))) + headers_of(ins[i]@)),
        txs_spendable(nothing(), txs_of(cat(ins))) ==> txs_spendable(apply_txs(nothing(), txs_of(cat(ins.take(i)))), txs_of(ins[i]@)),
{
    let (a, b, c) = (cat(ins.take(i)), ins[i]@, cat(ins.skip(i + 1)));
    lemma_cat(ins, i);
    assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).s_ok() by { assert((a + b + c)[a.len() + k] == b[k]); }
    lemma_txs_of_split(a + b, c);
    lemma_txs_of_split(a, b);
    lemma_chained_part(headers_of(a), headers_of(b), headers_of(c));
    lemma_fresh_split(nothing(), txs_of(a) + txs_of(b), txs_of(c));
    lemma_fresh_split(nothing(), txs_of(a), txs_of(b));
    lemma_apply_split(nothing(), txs_of(a) + txs_of(b), txs_of(c));
    lemma_apply_split(nothing(), txs_of(a), txs_of(b));
    lemma_apart_fits(apply_txs(nothing(), txs_of(a)), nothing(), txs_of(b));
}
// ---- the stored form
pub open spec fn hdr(h: BlockHeader) -> Seq<u8> { h.hash@ + h.previous_block_hash@ }
pub open spec fn hdr_image(h: Seq<BlockHeader>) -> Seq<u8>
    decreases h.len(),
{ if h.len() == 0 { Seq::empty() } else { hdr_image(h.drop_last()) + hdr(h.last()) } }
pub open spec fn store_image(b: Seq<u8>, h: Seq<BlockHeader>, u: Utxos) -> bool { exists|x: Seq<u8>| #[trigger] utxo_image(x, u) && h.len() <= u32::MAX && b == le_fix(h.len(), 4) + hdr_image(h) + x }
pub open spec fn hdr_at(d: Seq<u8>, p: int) -> BlockHeader { BlockHeader { hash: arr::<32>(cut(d, p, p + 32)), previous_block_hash: arr::<32>(cut(d, p + 32, p + 64)) } }
pub open spec fn hdrs(d: Seq<u8>, p: int, n: int) -> Seq<BlockHeader> { Seq::new(n as nat, |i: int| hdr_at(d, p + 64 * i)) }
pub open spec fn store_hdrs(d: Seq<u8>, p: int) -> Seq<BlockHeader> { hdrs(d, p + 4, le_at(d, p, 4) as int) }
pub open spec fn hdrs_end(d: Seq<u8>, p: int) -> int { p + 4 + 64 * le_at(d, p, 4) }
/// a stored index starts at `p`
pub open spec fn store_ok(d: Seq<u8>, p: int) -> bool { 0 <= p && p + 4 <= d.len() && hdrs_end(d, p) <= d.len() && chained(store_hdrs(d, p)) && utxos_ok(d, hdrs_end(d, p)) }
pub open spec fn store_utxos(d: Seq<u8>, p: int) -> Utxos { entries(utxo_recs(d, hdrs_end(d, p))) }
pub proof fn lemma_hdrs(d: Seq<u8>, p: int, h: Seq<BlockHeader>)
    requires at(d, p, hdr_image(h)),
    ensures hdr_image(h).len() == 64 * h.len(), hdrs(d, p, h.len() as int) == h,
    decreases h.len(),
{
    if h.len() > 0 {
        let (r, x) = (h.drop_last(), h.last());
        lemma_at(d, p, hdr_image(r), hdr(x));
        lemma_hdrs(d, p, r);
        let q = p + 64 * r.len();
        lemma_at(d, q, x.hash@, x.previous_block_hash@);
        assert(cut(d, q, q + 32) == x.hash@ && cut(d, q + 32, q + 64) == x.previous_block_hash@);
        assert(hdr_at(d, q) == x);
        assert forall|i: int| 0 <= i < h.len() implies #[trigger] hdrs(d, p, h.len() as int)[i] == h[i] by { if i < r.len() { assert(hdrs(d, p, r.len() as int)[i] == r[i]); } }
    }
    assert(hdrs(d, p, h.len() as int) =~= h);
}
/// what was stored is what is read
pub proof fn lemma_store_read(b: Seq<u8>, h: Seq<BlockHeader>, u: Utxos)
    requires store_image(b, h, u), chained(h),
    ensures store_ok(b, 0), store_hdrs(b, 0) == h, store_utxos(b, 0) == u,
{
    let x = choose|x: Seq<u8>| #[trigger] utxo_image(x, u) && h.len() <= u32::MAX && b == le_fix(h.len(), 4) + hdr_image(h) + x;
    lemma_le_fix_all(h.len() as u32, 0);
    assert(b.subrange(0, b.len() as int) =~= b);
    assert(at(b, 0, le_fix(h.len(), 4) + hdr_image(h) + x));
    lemma_at(b, 0, le_fix(h.len(), 4) + hdr_image(h), x);
    lemma_at(b, 0, le_fix(h.len(), 4), hdr_image(h));
    lemma_hdrs(b, 4, h);
    lemma_image_read(b, 4 + 64 * h.len() as int, x, u);
}
/// a complete image of the index may be kept under the name of the index file
pub open spec fn may_be_kept(h: Seq<BlockHeader>, u: Utxos) -> bool { forall|b: Seq<u8>| #[trigger] store_image(b, h, u) ==> keepable(b) }
/// no file but this one must not be lost
pub open spec fn precious_only(path: Seq<char>) -> bool { forall|p: Seq<char>| #[trigger] precious(p) ==> p == path }
/// after `to_file` and `from_file` on the same path
pub open spec fn saved(path: Seq<char>, h: Seq<BlockHeader>, u: Utxos) -> bool { exists|b: Seq<u8>| #[trigger] written_to_file(path, b) && store_image(b, h, u) }
/// the store can take the outputs of these transactions
pub open spec fn takes<T: TransactionStoreBackendTrait>(s: Store<T>, txs: Seq<Transaction>) -> bool { txs_fit::<T>(s.utxos(), txs) }
/// `debts` after `txs`
pub open spec fn debts_after<T: TransactionStoreBackendTrait>(s: Store<T>, txs: Seq<Transaction>) -> Seq<TransactionOutput> {
    if T::keeps() { s.debts() + txs_misses(s.utxos(), txs) } else { s.debts() }
}
pub proof fn lemma_step<T: TransactionStoreBackendTrait, B: BlockTrait>(s: Store<T>, h: Seq<BlockHeader>, b: Seq<B>, k: int)
    requires 0 <= k < b.len(), takes(s, txs_of(b)),
    ensures
        headers_of(b.take(k + 1)) == headers_of(b.take(k)).push(b[k].s_header()),
        (h + headers_of(b.take(k))).push(b[k].s_header()) == h + headers_of(b.take(k + 1)),
        txs_of(b.take(k + 1)) == txs_of(b.take(k)) + b[k].s_txs(),
        chained(h + headers_of(b)) ==> links(h + headers_of(b.take(k)), b[k].s_header()),
        txs_fit::<T>(apply_txs(s.utxos(), txs_of(b.take(k))), b[k].s_txs()),
        apply_txs(s.utxos(), txs_of(b.take(k + 1))) == apply_txs(apply_txs(s.utxos(), txs_of(b.take(k))), b[k].s_txs()),
        txs_misses(s.utxos(), txs_of(b.take(k + 1))) == txs_misses(s.utxos(), txs_of(b.take(k))) + txs_misses(apply_txs(s.utxos(), txs_of(b.take(k))), b[k].s_txs()),
        txs_spendable(s.utxos(), txs_of(b)) ==> txs_spendable(apply_txs(s.utxos(), txs_of(b.take(k))), b[k].s_txs()),
        txs_spendable(s.utxos(), txs_of(b.take(k + 1))) == (txs_spendable(s.utxos(), txs_of(b.take(k))) && txs_spendable(apply_txs(s.utxos(), txs_of(b.take(k))), b[k].s_txs())),
{
    let (x, y, z) = (b.take(k), b[k], b.skip(k + 1));
    let u = s.utxos();
    assert(b.take(k + 1).drop_last() =~= x);
    assert(headers_of(b.take(k + 1)) =~= headers_of(x).push(y.s_header()));
    assert((h + headers_of(x)).push(y.s_header()) =~= h + headers_of(b.take(k + 1)));
    assert(b =~= b.take(k + 1) + z);
    lemma_txs_of_split(b.take(k + 1), z);
    lemma_apply_split(u, txs_of(x), y.s_txs());
    lemma_apply_split(u, txs_of(b.take(k + 1)), txs_of(z));
    lemma_fit_split::<T>(u, txs_of(b.take(k + 1)), txs_of(z));
    lemma_fit_split::<T>(u, txs_of(x), y.s_txs());
    if chained(h + headers_of(b)) {
        assert(h + headers_of(b) =~= (h + headers_of(x)) + headers_of(b.skip(k)));
        lemma_chained_part(h + headers_of(x), Seq::empty(), headers_of(b.skip(k)));
        assert((h + headers_of(x)) + Seq::<BlockHeader>::empty() =~= h + headers_of(x));
        assert((h + headers_of(x)) + Seq::<BlockHeader>::empty() + headers_of(b.skip(k)) =~= h + headers_of(b));
        assert(headers_of(b.skip(k))[0] == y.s_header());
    }
}
pub open spec fn stored(w0: Seq<u8>, w1: Seq<u8>, h: Seq<BlockHeader>, u: Utxos) -> bool { exists|b: Seq<u8>| #[trigger] store_image(b, h, u) && w1 == w0 + b }
pub proof fn lemma_stored(w0: Seq<u8>, w1: Seq<u8>, h: Seq<BlockHeader>, u: Utxos)
    requires h.len() <= u32::MAX, u.len() <= u32::MAX, wrote(w0 + le_fix(h.len(), 4) + hdr_image(h) + le_fix(u.len(), 4), w1, u),
    ensures stored(w0, w1, h, u),
{
    let n = le_fix(h.len(), 4) + hdr_image(h);
    let s = choose|s: Seq<Entry>| pairs(s, u) && #[trigger] (w0 + le_fix(h.len(), 4) + hdr_image(h) + le_fix(u.len(), 4) + image(s)) == w1;
    lemma_pairs_len(s, u);
    let x = le_fix(s.len(), 4) + image(s);
    assert(is_image(x, s, u));
    assert(utxo_image(x, u));
    assert(store_image(n + x, h, u));
    assert(w1 =~= w0 + (n + x));
}
pub proof fn lemma_stored_all(w: Seq<u8>, h: Seq<BlockHeader>, u: Utxos)
    requires stored(Seq::empty(), w, h, u),
    ensures store_image(w, h, u),
{
    let b = choose|b: Seq<u8>| #[trigger] store_image(b, h, u) && w == Seq::<u8>::empty() + b;
    assert(w =~= b);
}
//@ impl Store
pub open spec fn headers(&self) -> Seq<BlockHeader> { self.block_headers@ }
pub open spec fn wf(&self) -> bool { self.transaction_store.wf() && chained(self.headers()) }
pub open spec fn utxos(&self) -> Utxos { self.transaction_store.utxos() }
pub open spec fn debts(&self) -> Seq<TransactionOutput> { self.transaction_store.debts() }
pub open spec fn strict(&self) -> bool { self.transaction_store.strict }
//@ fn Store::height
//@ ret r
ensures r == self.headers().len(),
//@ fn Store::backend
//@ ret r
ensures *r == self.transaction_store.backend,
//@ fn Store::take_backend
//@ ret r
ensures r == self.transaction_store.backend,
//@ fn Store::transaction_store
//@ ret r
ensures *r == self.transaction_store,
//@ fn Store::block_headers
//@ ret r
ensures *r == self.block_headers,
//@ fn Store::last_block_hash
//@ ret r
ensures r == if self.headers().len() > 0 { Some(self.headers().last().hash) } else { None },
//@ fn Store::add_block_header
requires chained(old(self).headers()), links(old(self).headers(), block_header) || may_panic(),
ensures
    links(old(self).headers(), block_header), final(self).headers() == old(self).headers().push(block_header),
    chained(final(self).headers()), final(self).transaction_store == old(self).transaction_store,
//@ fn Store::add_block
requires
    old(self).wf(), block.s_ok(), links(old(self).headers(), block.s_header()) || may_panic(),
    txs_fit::<T>(old(self).utxos(), block.s_txs()),
    old(self).strict() ==> txs_spendable(old(self).utxos(), block.s_txs()) || may_panic(),
ensures
    final(self).wf(), final(self).strict() == old(self).strict(),
    links(old(self).headers(), block.s_header()), final(self).headers() == old(self).headers().push(block.s_header()),
    old(self).strict() ==> txs_spendable(old(self).utxos(), block.s_txs()),
    final(self).utxos() == apply_txs(old(self).utxos(), block.s_txs()),
    final(self).debts() == if T::keeps() { old(self).debts() + txs_misses(old(self).utxos(), block.s_txs()) } else { old(self).debts() },
//@ fn process_blocks
requires
    old(store).wf(), all_ok(blocks@), chained(old(store).headers() + headers_of(blocks@)) || may_panic(),
    takes(*old(store), txs_of(blocks@)),
    old(store).strict() ==> txs_spendable(old(store).utxos(), txs_of(blocks@)) || may_panic(),
ensures
    final(store).wf(), final(store).strict() == old(store).strict(),
    final(store).headers() == old(store).headers() + headers_of(blocks@),
    final(store).utxos() == apply_txs(old(store).utxos(), txs_of(blocks@)),
    final(store).debts() == debts_after(*old(store), txs_of(blocks@)),
    old(store).strict() ==> txs_spendable(old(store).utxos(), txs_of(blocks@)),
//@ at start
let ghost (s0, h) = (*store, store.headers());
//@ loop 0
invariant
    all_ok(blocks@), it0.seq().len() == blocks@.len(), forall|i: int| 0 <= i < blocks@.len() ==> *#[trigger] it0.seq()[i] == blocks@[i],
    s0 == *old(store), h == s0.headers(), s0.wf(), takes(s0, txs_of(blocks@)),
    chained(h + headers_of(blocks@)) || may_panic(),
    s0.strict() ==> txs_spendable(s0.utxos(), txs_of(blocks@)) || may_panic(),
    s0.strict() ==> txs_spendable(s0.utxos(), txs_of(blocks@.take(it0.index() as int))),
    store.wf(), store.strict() == s0.strict(),
    store.headers() == h + headers_of(blocks@.take(it0.index() as int)),
    store.utxos() == apply_txs(s0.utxos(), txs_of(blocks@.take(it0.index() as int))),
    store.debts() == debts_after(s0, txs_of(blocks@.take(it0.index() as int))),
//@ at loop 0 before
proof {
    assert(h + headers_of(blocks@.take(0)) =~= h);
    assert(store.debts() =~= debts_after(s0, txs_of(blocks@.take(0))));
}
//@ at loop 0 start
let ghost k = it0.index() as int;
proof {
    assert(*block == blocks@[k]);
    lemma_step(s0, h, blocks@, k);
}
//@ at loop 0 end
proof { assert(store.debts() =~= debts_after(s0, txs_of(blocks@.take(k + 1)))); }
//@ at end
proof { assert(blocks@.take(blocks@.len() as int) =~= blocks@); }
//@ fn IndexedStore::from_blocks
//@ ret r
requires
    all_ok(blocks@), chained(headers_of(blocks@)) || (threads <= 1 && may_panic()),
    fresh(nothing(), txs_of(blocks@)), txs_spendable(nothing(), txs_of(blocks@)) || may_panic(),
    threads > 1 ==> cloning_keeps::<T>() && batch_size >= 1 && blocks@.len() <= usize::MAX / 2,
ensures
    r.wf(), r.strict(), r.headers() == headers_of(blocks@), r.utxos() == apply_txs(nothing(), txs_of(blocks@)),
    txs_spendable(nothing(), txs_of(blocks@)),
//@ at start
let ghost (all, txs, n0) = (blocks@, txs_of(blocks@), nothing());
proof { lemma_fresh_fits::<IndexedTransactionStoreBackend>(n0, txs); }
//@ closure 0 r: (IntermediaryStore, Vec<T>)
requires workable(blocks@),
ensures processed(r.0, blocks@), r.1 == blocks,
//@ at let threadpool before
proof {
    assert forall|ins: Seq<Vec<T>>| #[trigger] batcher.may(ins) implies forall|i: int| 0 <= i < ins.len() ==> workable((#[trigger] ins[i])@) by { lemma_workable(all, ins, batch_size as int); }
}
let ghost src = batcher;
//@ at let threadpool
let ghost (ins, outs) = choose|ins: Seq<Vec<T>>, outs: Seq<(IntermediaryStore, Vec<T>)>| #[trigger] src.may(ins) && #[trigger] results(__vx_c0, ins, outs) && threadpool.pmay(outs) && (forall|s: Seq<(IntermediaryStore, Vec<T>)>| threadpool.pmay(s) ==> s == outs);
proof { lemma_workable(all, ins, batch_size as int); assert(cat(ins.take(0)) =~= Seq::empty()); assert(ins.take(ins.len() as int) =~= ins);
    assert forall|i: int| 0 <= i < ins.len() implies processed((#[trigger] outs[i]).0, ins[i]@) by { assert(__vx_c0.ensures((ins[i],), outs[i])); }
}
//@ loop 0
invariant
    it0.seq() == outs, outs.len() == ins.len(), forall|i: int| 0 <= i < ins.len() ==> processed((#[trigger] outs[i]).0, ins[i]@), headers_of(cat(ins)) == headers_of(all), txs_of(cat(ins)) == txs, all_ok(cat(ins)), chained(headers_of(all)), fresh(n0, txs),
    n0 == nothing(), forall|i: int| 0 <= i < ins.len() ==> 0 < (#[trigger] ins[i])@.len(),
    txs_spendable(n0, txs) || may_panic(),
    txs_spendable(n0, txs_of(cat(ins.take(it0.index() as int)))),
    store.wf(), store.strict(), store.headers() == headers_of(cat(ins.take(it0.index() as int))),
    store.utxos() == apply_txs(n0, txs_of(cat(ins.take(it0.index() as int)))),
//@ at loop 0 start
let ghost k = it0.index() as int;
proof {
    assert((intermediary_store, blocks) == outs[k]);
    lemma_cut(ins, k);
    let u = store.utxos();
    let t = txs_of(ins[k]@);
    lemma_batch(u, t);
    if txs_spendable(u, t) {
        lemma_merged_fits::<IndexedTransactionStoreBackend>(u, txs_misses(n0, t), apply_txs(n0, t), apply_txs(u, t));
    }
    lemma_apply_split(n0, txs_of(cat(ins.take(k))), t);
}
//@ fn IndexedStore::from_file
//@ ret r
requires forall|d: Seq<u8>| #[trigger] held_by_file(path@, d) ==> store_ok(d, 0),
ensures
    file_there(path@) ==> r is Some,
    r is Some ==> r->0.wf() && r->0.strict() && exists|d: Seq<u8>| #[trigger] held_by_file(path@, d) && r->0.headers() == store_hdrs(d, 0) && r->0.utxos() == store_utxos(d, 0),
//@ fn IndexedStore::from_reader
//@ ret r
requires old(reader).wf(), store_ok(old(reader).data(), old(reader).pos()),
ensures
    r.wf(), r.strict(), r.headers() == store_hdrs(old(reader).data(), old(reader).pos()), r.utxos() == store_utxos(old(reader).data(), old(reader).pos()),
//@ at start
let ghost (d, p) = (reader.data(), reader.pos());
//@ loop 0
invariant
    reader.wf(), reader.data() == d, store_ok(d, p), it0.seq().len() == le_at(d, p, 4),
    reader.pos() == p + 4 + 64 * it0.index(),
    block_headers@ == hdrs(d, p + 4, it0.index() as int),
//@ at loop 0 before
proof { assert(hdrs(d, p + 4, 0) =~= Seq::empty()); }
//@ at loop 0 start
let ghost k = it0.index() as int;
//@ at loop 0 end
proof {
    let q = p + 4 + 64 * k;
    assert(hash@ == cut(d, q, q + 32) && previous_block_hash@ == cut(d, q + 32, q + 64));
    assert(block_headers@ =~= hdrs(d, p + 4, k + 1));
}
//@ fn IndexedStore::to_writer
requires self.wf(), self.headers().len() <= u32::MAX, self.utxos().len() <= u32::MAX,
ensures
    stored(old(writer).written(), final(writer).written(), self.headers(), self.utxos()),
    old(writer).written().len() == 0 ==> store_image(final(writer).written(), self.headers(), self.utxos()),
//@ at start
let ghost (w0, h) = (writer.written() + le_fix(self.headers().len(), 4), self.headers());
//@ loop 0
invariant
    it0.seq().len() == h.len(), forall|i: int| 0 <= i < h.len() ==> *#[trigger] it0.seq()[i] == h[i],
    writer.written() == w0 + hdr_image(h.take(it0.index() as int)),
//@ at loop 0 before
proof { assert(w0 + hdr_image(h.take(0)) =~= w0); }
//@ at loop 0 start
let ghost k = it0.index() as int;
//@ at loop 0 end
proof {
    assert(h.take(k + 1).drop_last() =~= h.take(k));
    assert(w0 + hdr_image(h.take(k)) + h[k].hash@ + h[k].previous_block_hash@ =~= w0 + hdr_image(h.take(k + 1)));
}
//@ at loop 0 after
proof { assert(h.take(h.len() as int) =~= h); }
//@ at end
proof {
    lemma_stored(old(writer).written(), writer.written(), h, self.utxos());
    if old(writer).written().len() == 0 { assert(old(writer).written() =~= Seq::<u8>::empty()); lemma_stored_all(writer.written(), h, self.utxos()); }
}
//@ fn IndexedStore::to_file
requires
    self.wf(), self.headers().len() <= u32::MAX, self.utxos().len() <= u32::MAX, disk_works(),
    may_be_kept(self.headers(), self.utxos()), precious_only(path@),
ensures saved(path@, self.headers(), self.utxos()),
//@ fn IndexedStore::large
//@ ret r
ensures r.wf(), r.strict(), r.headers().len() == 0, r.utxos() == nothing(),
//@ fn IntermediaryStore::new
//@ ret r
ensures r.wf(), !r.strict(), r.headers().len() == 0, r.utxos() == nothing(), r.debts() == Seq::<TransactionOutput>::empty(),
//@ fn IntermediaryStore::merge
requires
    self.wf(), old(store).wf(), chained(old(store).headers() + self.headers()) || may_panic(),
    old(store).strict() ==> spendable(old(store).utxos(), self.debts()) || may_panic(),
    (old(store).strict() ==> spendable(old(store).utxos(), self.debts())) ==> all_fit::<T>(spent(old(store).utxos(), self.debts()), self.utxos()),
ensures
    final(store).wf(), final(store).strict() == old(store).strict(),
    final(store).headers() == old(store).headers() + self.headers(),
    old(store).strict() ==> spendable(old(store).utxos(), self.debts()),
    final(store).utxos() == spent(old(store).utxos(), self.debts()).union_prefer_right(self.utxos()),
//@ at start
let ghost (h, g) = (store.headers(), self.headers());
//@ loop 0
invariant
    it0.seq().len() == g.len(), forall|i: int| 0 <= i < g.len() ==> *#[trigger] it0.seq()[i] == g[i],
    store.transaction_store == old(store).transaction_store,
    chained(h + g) || may_panic(),
    store.headers() == h + g.take(it0.index() as int), chained(store.headers()),
//@ at loop 0 before
proof { assert(h + g.take(0) =~= h); }
//@ at loop 0 start
let ghost k = it0.index() as int;
proof {
    assert(*block_header == g[k]);
    if chained(h + g) {
        assert(h + g =~= (h + g.take(k)) + g.skip(k));
        assert((h + g.take(k)) + Seq::<BlockHeader>::empty() =~= h + g.take(k));
        lemma_chained_part(h + g.take(k), Seq::empty(), g.skip(k));
        assert(g.skip(k)[0] == g[k]);
    }
    assert((h + g.take(k)).push(g[k]) =~= h + g.take(k + 1));
}
//@ at loop 0 after
proof { assert(g.take(g.len() as int) =~= g); }
//@ fn AugmentedStore::new
//@ ret r
requires base_store.wf(),
ensures r.wf(), r.strict(), r.headers().len() == 0, r.utxos() == base_store.utxos(), r.transaction_store.backend.base_store == base_store.transaction_store.backend,
