//@ file store/transaction_store_backend_trait.rs
//@ top
broadcast use crate::shim::shim_axioms;
/// unspent outputs: value, and the address the script denotes, if any
pub type Utxos = Map<TransactionOutput, (u64, Option<Address>)>;
pub type Listing = Map<TransactionOutput, u64>;

/// the outputs attributed to an address
pub open spec fn by_addr(u: Utxos, a: Address) -> Listing {
    Map::new(u.dom().filter(|t: TransactionOutput| u[t].1 == Some(a)), |t: TransactionOutput| u[t].0)
}
/// `l` lists the pairs of `m`, each exactly once
pub open spec fn lists(l: Seq<(TransactionOutput, u64)>, m: Listing) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> m.contains_key((#[trigger] l[i]).0) && m[l[i].0] == l[i].1
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[j]).0
    &&& forall|t: TransactionOutput| #[trigger] m.contains_key(t) ==> listed(l, t)
}
pub open spec fn listed(l: Seq<(TransactionOutput, u64)>, t: TransactionOutput) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == t }
pub open spec fn held(u: Utxos, t: TransactionOutput) -> Option<(u64, Option<Address>)> { if u.contains_key(t) { Some(u[t]) } else { None } }
/// the sum of the values in a listing
pub open spec fn total(m: Listing) -> nat
    decreases m.dom().len()
{
    if m.dom().len() == 0 { 0 } else { let t = m.dom().choose(); if m.contains_key(t) { m[t] as nat + total(m.remove(t)) } else { 0 } }
}
pub open spec fn seq_sum(l: Seq<(TransactionOutput, u64)>) -> nat
    decreases l.len()
{ if l.len() == 0 { 0 } else { seq_sum(l.drop_last()) + l.last().1 as nat } }

pub proof fn lemma_total_remove(m: Listing, t: TransactionOutput)
    requires m.contains_key(t),
    ensures total(m) == m[t] as nat + total(m.remove(t)),
    decreases m.dom().len(),
{
    assert(m.dom().contains(t));
    if m.dom().len() == 0 { assert(m.dom() =~= Set::empty()); }
    let c = m.dom().choose();
    assert(m.dom().contains(c));
    if c != t {
        assert(m.remove(c).dom() =~= m.dom().remove(c));
        assert(m.remove(t).dom() =~= m.dom().remove(t));
        lemma_total_remove(m.remove(c), t);
        lemma_total_remove(m.remove(t), c);
        assert(m.remove(c).remove(t) =~= m.remove(t).remove(c));
    }
}
pub proof fn lemma_lists_finite(l: Seq<(TransactionOutput, u64)>, m: Listing)
    requires lists(l, m),
    ensures l.len() == m.dom().len(), seq_sum(l) == total(m),
    decreases l.len(),
{
    if l.len() == 0 {
        assert forall|t: TransactionOutput| !m.dom().contains(t) by { if m.contains_key(t) { assert(listed(l, t)); } }
        assert(m.dom() =~= Set::empty());
    } else {
        let (k, d) = (l.last().0, l.drop_last());
        let n = m.remove(k);
        assert(m.contains_key(l[l.len() - 1].0));
        assert forall|i: int| 0 <= i < d.len() implies n.contains_key((#[trigger] d[i]).0) && n[d[i].0] == d[i].1 by { assert(d[i] == l[i]); }
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0 != (#[trigger] d[j]).0 by { assert(d[i] == l[i] && d[j] == l[j]); }
        assert forall|t: TransactionOutput| #[trigger] n.contains_key(t) implies listed(d, t) by {
            assert(m.contains_key(t) && listed(l, t));
            let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == t;
            assert(d[i] == l[i]);
        }
        lemma_lists_finite(d, n);
        assert(m.dom() =~= n.dom().insert(k));
        lemma_total_remove(m, k);
    }
}
pub proof fn lemma_sum_prefix(l: Seq<(TransactionOutput, u64)>, n: int)
    requires 0 <= n <= l.len(),
    ensures seq_sum(l.take(n)) <= seq_sum(l), n < l.len() ==> seq_sum(l.take(n + 1)) == seq_sum(l.take(n)) + l[n].1,
    decreases l.len() - n,
{
    if n < l.len() {
        assert(l.take(n + 1).drop_last() =~= l.take(n));
        lemma_sum_prefix(l, n + 1);
    } else { assert(l.take(n) =~= l); }
}
//@ trait ReadonlyTransactionStoreBackendTrait
spec fn rwf(&self) -> bool;
spec fn s_list(&self, a: Address) -> Listing;
//@ fn ReadonlyTransactionStoreBackendTrait::iterate_transaction_outputs
//@ ret r
requires self.rwf(),
ensures lists(r@, self.s_list(*address)),
//@ fn ReadonlyTransactionStoreBackendTrait::balance
//@ ret r
requires self.rwf(), total(self.s_list(*address)) <= u64::MAX,
ensures r == total(self.s_list(*address)),
//@ loop 0
invariant
    it0.seq() == __vx_src0@, lists(it0.seq(), self.s_list(*address)), total(self.s_list(*address)) <= u64::MAX,
    sum as nat == seq_sum(it0.seq().take(it0.index() as int)),
//@ at loop 0 start
proof { lemma_lists_finite(it0.seq(), self.s_list(*address)); lemma_sum_prefix(it0.seq(), it0.index() as int); lemma_sum_prefix(it0.seq(), it0.index() + 1); }
//@ at loop 0 end
proof { assert(it0.seq()[it0.index() as int].1 == value); }
//@ at loop 0 after
proof { lemma_lists_finite(__vx_src0@, self.s_list(*address)); assert(__vx_src0@.take(__vx_src0@.len() as int) =~= __vx_src0@); }
//@ trait TransactionStoreBackendTrait
spec fn wf(&self) -> bool;
spec fn utxos(&self) -> Utxos;
/// spends that this backend could not match and put aside
spec fn debts(&self) -> Seq<TransactionOutput>;
/// the unspent outputs of what this backend is laid over, if anything
spec fn below(&self) -> Utxos;
/// whether unmatched spends are put aside
spec fn keeps() -> bool;
/// whether an output may be added for address `a` where `was` is what the backend holds under the same id
spec fn addable(was: Option<(u64, Option<Address>)>, a: Option<Address>) -> bool;
proof fn lemma_addable(a: Option<Address>)
    ensures Self::addable(None, a);
//@ fn TransactionStoreBackendTrait::has_transaction_output
//@ ret r
requires self.wf(),
ensures r == self.utxos().contains_key(*txo),
//@ fn TransactionStoreBackendTrait::spend_transaction_output
//@ ret r
requires old(self).wf(),
ensures
    final(self).wf(),
    r == old(self).utxos().contains_key(*txo),
    final(self).utxos() == old(self).utxos().remove(*txo), final(self).below() == old(self).below(),
    final(self).debts() == if r || !Self::keeps() { old(self).debts() } else { old(self).debts().push(*txo) },
//@ fn TransactionStoreBackendTrait::add_transaction_output
requires old(self).wf(), Self::addable(held(old(self).utxos(), txo), address),
ensures
    final(self).wf(),
    final(self).utxos() == old(self).utxos().insert(txo, (value, address)), final(self).below() == old(self).below(),
    final(self).debts() == old(self).debts(),
