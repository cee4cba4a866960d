//@ file store/transaction_store_backend.rs
//@ top
use std::collections::HashSet;
broadcast use {crate::shim::shim_axioms, vstd::std_specs::hash::group_hash_axioms, crate::hashmap::group_keys};
use crate::hashmap::*;
use crate::nums::*;
use crate::address::{is_stored, lemma_stored_unique, stored};
use crate::hashing_buffer_reader::{cut, le_at};
use super::transaction_store_backend_trait::*;
/// the index by address agrees with the unspent outputs
pub open spec fn indexed(u: Utxos, x: Map<Address, TransactionOutputHashMap<u64>>) -> bool {
    forall|a: Address| #[trigger] index_at(x, a) == by_addr(u, a)
}
pub open spec fn index_at(x: Map<Address, TransactionOutputHashMap<u64>>, a: Address) -> Listing {
    if x.contains_key(a) { x[a].m() } else { Map::empty() }
}
pub proof fn lemma_indexed_empty(u: Utxos, x: Map<Address, TransactionOutputHashMap<u64>>)
    requires u == Map::<TransactionOutput, (u64, Option<Address>)>::empty(), x == Map::<Address, TransactionOutputHashMap<u64>>::empty(),
    ensures indexed(u, x),
{ assert forall|a: Address| #[trigger] index_at(x, a) == by_addr(u, a) by { assert(index_at(x, a) =~= by_addr(u, a)); } }
/// the index follows when an output is spent
pub proof fn lemma_indexed_remove(u: Utxos, x: Map<Address, TransactionOutputHashMap<u64>>, y: Map<Address, TransactionOutputHashMap<u64>>, t: TransactionOutput)
    requires
        indexed(u, x), u.contains_key(t),
        u[t].1 is None ==> y == x,
        u[t].1 matches Some(a) ==> index_at(y, a) == index_at(x, a).remove(t) && forall|b: Address| b != a ==> #[trigger] index_at(y, b) == index_at(x, b),
    ensures indexed(u.remove(t), y),
{
    assert forall|b: Address| #[trigger] index_at(y, b) == by_addr(u.remove(t), b) by {
        assert(index_at(x, b) == by_addr(u, b));
        if u[t].1 == Some(b) { assert(by_addr(u.remove(t), b) =~= by_addr(u, b).remove(t)); } else { assert(by_addr(u.remove(t), b) =~= by_addr(u, b)); assert(index_at(y, b) == index_at(x, b)); }
    }
}
/// the index follows when an output is added
pub proof fn lemma_indexed_insert(u: Utxos, x: Map<Address, TransactionOutputHashMap<u64>>, y: Map<Address, TransactionOutputHashMap<u64>>, t: TransactionOutput, v: u64, o: Option<Address>)
    requires
        indexed(u, x), u.contains_key(t) ==> u[t].1 == o,
        o is None ==> y == x,
        o matches Some(a) ==> index_at(y, a) == index_at(x, a).insert(t, v) && forall|b: Address| b != a ==> #[trigger] index_at(y, b) == index_at(x, b),
    ensures indexed(u.insert(t, (v, o)), y),
{
    let w = u.insert(t, (v, o));
    assert forall|b: Address| #[trigger] index_at(y, b) == by_addr(w, b) by {
        assert(index_at(x, b) == by_addr(u, b));
        if o == Some(b) { assert(by_addr(w, b) =~= by_addr(u, b).insert(t, v)); } else { assert(by_addr(w, b) =~= by_addr(u, b)); assert(index_at(y, b) == index_at(x, b)); }
    }
}
/// `l` has the first n pairs by value
pub open spec fn copied(l: Seq<(TransactionOutput, u64)>, s: Seq<(&TransactionOutput, &u64)>, n: int) -> bool {
    l.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] l[i]).0 == *s[i].0 && l[i].1 == *s[i].1
}
pub proof fn lemma_copied(l: Seq<(TransactionOutput, u64)>, s: Seq<(&TransactionOutput, &u64)>, m: Listing)
    ensures copied(l, s, s.len() as int) && listing(s, m) ==> lists(l, m),
{
    if !(copied(l, s, s.len() as int) && listing(s, m)) { return; }
    assert forall|i: int| 0 <= i < l.len() implies m.contains_key((#[trigger] l[i]).0) && m[l[i].0] == l[i].1 by { assert(m.contains_pair(*s[i].0, *s[i].1)); }
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies (#[trigger] l[i]).0 != (#[trigger] l[j]).0 by {
        if l[i].0 == l[j].0 { assert(m.contains_pair(*s[i].0, *s[i].1) && m.contains_pair(*s[j].0, *s[j].1)); assert(s[i] == s[j]); }
    }
    assert forall|t: TransactionOutput| #[trigger] m.contains_key(t) implies listed(l, t) by {
        assert(s.contains((&t, &m[t])));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == (&t, &m[t]);
        assert(l[i].0 == t);
    }
}
/// `l` lists what of the first n entries is not spent
pub open spec fn unspent_part(l: Seq<(TransactionOutput, u64)>, s: Seq<(TransactionOutput, u64)>, n: int, m: Listing, spent: Set<TransactionOutput>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> m.contains_key((#[trigger] l[i]).0) && m[l[i].0] == l[i].1 && !spent.contains(l[i].0) && listed(s.take(n), l[i].0)
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[j]).0
    &&& forall|j: int| 0 <= j < n && !spent.contains((#[trigger] s[j]).0) ==> listed(l, s[j].0)
}
pub proof fn lemma_listed_push(l: Seq<(TransactionOutput, u64)>, e: (TransactionOutput, u64))
    ensures forall|t: TransactionOutput| #[trigger] listed(l, t) ==> listed(l.push(e), t), listed(l.push(e), e.0),
{
    assert(l.push(e)[l.len() as int] == e);
    assert forall|t: TransactionOutput| #[trigger] listed(l, t) implies listed(l.push(e), t) by { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == t; assert(l.push(e)[i].0 == t); }
}
pub proof fn lemma_unspent_step(l: Seq<(TransactionOutput, u64)>, k: Seq<(TransactionOutput, u64)>, s: Seq<(TransactionOutput, u64)>, n: int, m: Listing, spent: Set<TransactionOutput>)
    requires
        unspent_part(l, s, n, m, spent), 0 <= n < s.len(), lists(s, m),
        k == if spent.contains(s[n].0) { l } else { l.push(s[n]) },
    ensures unspent_part(k, s, n + 1, m, spent),
{
    assert(s.take(n + 1) =~= s.take(n).push(s[n]));
    lemma_listed_push(s.take(n), s[n]);
    lemma_listed_push(l, s[n]);
    assert(m.contains_key(s[n].0));
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).0 != s[n].0 by {
        assert(listed(s.take(n), l[i].0));
        let j = choose|j: int| 0 <= j < n && (#[trigger] s.take(n)[j]).0 == l[i].0;
        assert(s[j] == s.take(n)[j]);
    }
}
pub proof fn lemma_unspent_all(l: Seq<(TransactionOutput, u64)>, s: Seq<(TransactionOutput, u64)>, m: Listing, spent: Set<TransactionOutput>)
    requires unspent_part(l, s, s.len() as int, m, spent), lists(s, m),
    ensures lists(l, m.remove_keys(spent)),
{
    let w = m.remove_keys(spent);
    assert forall|t: TransactionOutput| #[trigger] w.contains_key(t) implies listed(l, t) by {
        assert(m.contains_key(t) && listed(s, t));
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == t;
        assert(!spent.contains(s[j].0));
    }
}
pub proof fn lemma_lists_union(a: Seq<(TransactionOutput, u64)>, b: Seq<(TransactionOutput, u64)>, m: Listing, w: Listing)
    requires lists(a, m), lists(b, w), forall|t: TransactionOutput| #[trigger] w.contains_key(t) ==> !m.contains_key(t),
    ensures lists(a + b, m.union_prefer_right(w)),
{
    let (c, u) = (a + b, m.union_prefer_right(w));
    assert forall|i: int| 0 <= i < c.len() implies u.contains_key((#[trigger] c[i]).0) && u[c[i].0] == c[i].1 by { if i < a.len() { assert(c[i] == a[i]); assert(m.contains_key(a[i].0)); } else { assert(c[i] == b[i - a.len()]); assert(w.contains_key(b[i - a.len()].0)); } }
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).0 != (#[trigger] c[j]).0 by {
        if i < a.len() { assert(c[i] == a[i]); assert(m.contains_key(a[i].0)); } else { assert(c[i] == b[i - a.len()]); }
        if j < a.len() { assert(c[j] == a[j]); } else { assert(c[j] == b[j - a.len()]); assert(w.contains_key(b[j - a.len()].0)); }
    }
    assert forall|t: TransactionOutput| #[trigger] u.contains_key(t) implies listed(c, t) by {
        if w.contains_key(t) { assert(listed(b, t)); let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == t; assert(c[a.len() + i].0 == t); }
        else { assert(m.contains_key(t)); assert(listed(a, t)); let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == t; assert(c[i].0 == t); }
    }
}
/// intermediary stores keep the pair the other way round
pub open spec fn turned(u: Map<TransactionOutput, (Option<Address>, u64)>) -> Utxos { u.map_values(|p: (Option<Address>, u64)| (p.1, p.0)) }
/// a base without what an overlay spent, and with what it added
pub open spec fn overlaid(base: Utxos, spent: Set<TransactionOutput>, own: Utxos) -> Utxos { base.remove_keys(spent).union_prefer_right(own) }
/// what an overlay recorded over a store lists for an address is what the overlay's view holds for it
pub proof fn lemma_overlay_view(base: IndexedTransactionStoreBackend, g: TransactionStoreAugmentation, r: ReadonlyAugmentedTransactionStoreBackend<IndexedTransactionStoreBackend>)
    requires base.wf(), *r.store == base, r.augmentation matches Some(x) ==> *x == g && g.fits(base.utxos()),
    ensures
        r.rwf(),
        forall|a: Address| #[trigger] r.s_list(a) == by_addr(if r.augmentation is Some { g.over(base.utxos()) } else { base.utxos() }, a),
{
    let (u, s, w) = (base.iu(), g.spent_txos@, g.store.iu());
    if r.augmentation is Some {
        assert forall|a: Address| #[trigger] r.s_list(a) == by_addr(overlaid(u, s, w), a) by {
            let (p, q) = (list_overlaid(by_addr(u, a), s, by_addr(w, a)), by_addr(overlaid(u, s, w), a));
            assert forall|t: TransactionOutput| p.dom().contains(t) == q.dom().contains(t) by {
                if w.contains_key(t) && u.contains_key(t) { assert(s.contains(t)); }
            }
            assert(p.dom() =~= q.dom());
            assert(p =~= q);
        }
        assert forall|a: Address, t: TransactionOutput| #[trigger] g.store.s_list(a).contains_key(t) && #[trigger] r.store.s_list(a).contains_key(t) implies g.spent_txos@.contains(t) by {
            assert(w.contains_key(t) && u.contains_key(t));
        }
    }
}
pub open spec fn list_overlaid(base: Listing, spent: Set<TransactionOutput>, own: Listing) -> Listing { base.remove_keys(spent).union_prefer_right(own) }
// ---- the stored form of an index
pub type Entry = (TransactionOutput, (u64, Option<Address>));
pub open spec fn held_in(s: Seq<Entry>, t: TransactionOutput) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == t }
pub open spec fn apart(s: Seq<Entry>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
/// `s` has every entry of `u` once, and nothing else
pub open spec fn pairs(s: Seq<Entry>, u: Utxos) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> u.contains_key((#[trigger] s[i]).0) && u[s[i].0] == s[i].1
    &&& apart(s)
    &&& forall|t: TransactionOutput| #[trigger] u.contains_key(t) ==> held_in(s, t)
}
/// the unspent outputs with these entries
pub open spec fn entries(s: Seq<Entry>) -> Utxos
    decreases s.len(),
{ if s.len() == 0 { Map::empty() } else { entries(s.drop_last()).insert(s.last().0, s.last().1) } }
pub proof fn lemma_entries(s: Seq<Entry>)
    ensures
        forall|t: TransactionOutput| #[trigger] entries(s).contains_key(t) <==> held_in(s, t),
        apart(s) ==> forall|i: int| 0 <= i < s.len() ==> entries(s)[(#[trigger] s[i]).0] == s[i].1,
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_entries(d);
        assert forall|t: TransactionOutput| #[trigger] entries(s).contains_key(t) <==> held_in(s, t) by {
            assert(entries(s).contains_key(t) <==> entries(d).contains_key(t) || t == s.last().0);
            if held_in(d, t) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == t; assert(s[i].0 == t); }
            if held_in(s, t) && t != s.last().0 { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == t; assert(d[i].0 == t); }
            if t == s.last().0 { assert(s[s.len() - 1].0 == t); }
        }
        if apart(s) {
            assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0 != (#[trigger] d[j]).0 by { assert(s[i] == d[i] && s[j] == d[j]); }
            assert forall|i: int| 0 <= i < s.len() implies entries(s)[(#[trigger] s[i]).0] == s[i].1 by {
                if i < d.len() { assert(d[i] == s[i]); assert(s[i].0 != s[s.len() - 1].0); }
            }
        }
    }
}
pub proof fn lemma_pairs(s: Seq<Entry>, u: Utxos)
    requires pairs(s, u),
    ensures entries(s) == u,
{
    lemma_entries(s);
    assert forall|t: TransactionOutput| #[trigger] entries(s).contains_key(t) implies u.contains_key(t) && u[t] == entries(s)[t] by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == t;
        assert(u.contains_key(s[i].0));
    }
    assert(entries(s) =~= u);
}
pub open spec fn rec(e: Entry) -> Seq<u8> {
    e.0.hash@ + le_fix(e.0.index as nat, 4) + le_fix(e.1.0 as nat, 8) + match e.1.1 { Some(a) => seq![1u8] + stored(a), None => seq![0u8] }
}
pub open spec fn image(s: Seq<Entry>) -> Seq<u8>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { image(s.drop_last()) + rec(s.last()) } }
/// `b` is what is stored for `u` (the entries come in no particular order)
pub open spec fn utxo_image(b: Seq<u8>, u: Utxos) -> bool { exists|s: Seq<Entry>| is_image(b, s, u) }
pub open spec fn is_image(b: Seq<u8>, s: Seq<Entry>, u: Utxos) -> bool { pairs(s, u) && s.len() <= u32::MAX && b == le_fix(s.len(), 4) + image(s) }

pub open spec fn rec_end(d: Seq<u8>, p: int) -> int { if d[p + 44] != 0 { p + 66 } else { p + 45 } }
pub open spec fn rec_ok(d: Seq<u8>, p: int) -> bool {
    0 <= p && p + 45 <= d.len() && (d[p + 44] != 0 ==> p + 66 <= d.len() && is_stored(cut(d, p + 45, p + 66)))
}
pub open spec fn unstored(b: Seq<u8>) -> Address { choose|a: Address| stored(a) == b }
pub open spec fn rec_at(d: Seq<u8>, p: int) -> Entry {
    (TransactionOutput { hash: arr::<32>(cut(d, p, p + 32)), index: le_at(d, p + 32, 4) as u32 },
     (le_at(d, p + 36, 8) as u64, if d[p + 44] != 0 { Some(unstored(cut(d, p + 45, p + 66))) } else { None }))
}
pub open spec fn recs_end(d: Seq<u8>, p: int, n: int) -> int decreases n { if n <= 0 { p } else { rec_end(d, recs_end(d, p, n - 1)) } }
pub open spec fn recs_ok(d: Seq<u8>, p: int, n: int) -> bool decreases n { if n <= 0 { n == 0 && 0 <= p <= d.len() } else { recs_ok(d, p, n - 1) && rec_ok(d, recs_end(d, p, n - 1)) } }
pub open spec fn recs(d: Seq<u8>, p: int, n: int) -> Seq<Entry> decreases n { if n <= 0 { Seq::empty() } else { recs(d, p, n - 1).push(rec_at(d, recs_end(d, p, n - 1))) } }
/// a stored index starts at `p`
pub open spec fn utxos_ok(d: Seq<u8>, p: int) -> bool { 0 <= p && p + 4 <= d.len() && recs_ok(d, p + 4, le_at(d, p, 4) as int) && apart(utxo_recs(d, p)) }
pub open spec fn utxo_recs(d: Seq<u8>, p: int) -> Seq<Entry> { recs(d, p + 4, le_at(d, p, 4) as int) }
pub open spec fn utxos_end(d: Seq<u8>, p: int) -> int { recs_end(d, p + 4, le_at(d, p, 4) as int) }
pub open spec fn at(d: Seq<u8>, p: int, b: Seq<u8>) -> bool { 0 <= p && p + b.len() <= d.len() && d.subrange(p, p + b.len()) == b }
pub proof fn lemma_at(d: Seq<u8>, p: int, a: Seq<u8>, b: Seq<u8>)
    requires at(d, p, a + b),
    ensures at(d, p, a), at(d, p + a.len(), b),
{
    let w = d.subrange(p, p + (a + b).len());
    assert(d.subrange(p, p + a.len()) =~= w.take(a.len() as int));
    assert(w.take(a.len() as int) =~= a);
    assert(d.subrange(p + a.len(), p + a.len() + b.len()) =~= w.skip(a.len() as int));
    assert(w.skip(a.len() as int) =~= b);
}
pub proof fn lemma_unstored(a: Address)
    ensures unstored(stored(a)) == a,
{ let b = unstored(stored(a)); assert(stored(a) == stored(a)); lemma_stored_unique(b, a); }
/// a stored entry is read back
pub proof fn lemma_rec(d: Seq<u8>, p: int, e: Entry)
    requires at(d, p, rec(e)),
    ensures rec_ok(d, p), rec_at(d, p) == e, rec_end(d, p) == p + rec(e).len(),
{
    let (h, i, v) = (e.0.hash@, le_fix(e.0.index as nat, 4), le_fix(e.1.0 as nat, 8));
    let t = match e.1.1 { Some(a) => seq![1u8] + stored(a), None => seq![0u8] };
    lemma_le_fix_all(e.0.index, e.1.0);
    lemma_at(d, p, h + i + v, t);
    lemma_at(d, p, h + i, v);
    lemma_at(d, p, h, i);
    assert(cut(d, p, p + 32) == h);
    assert(d[p + 44] == d.subrange(p + 44, p + 44 + t.len())[0]);
    assert(le_at(d, p + 32, 4) == e.0.index as nat);
    assert(le_at(d, p + 36, 8) == e.1.0 as nat);
    match e.1.1 {
        Some(a) => {
            lemma_stored_unique(a, a);
            lemma_at(d, p + 44, seq![1u8], stored(a));
            assert(cut(d, p + 45, p + 66) == stored(a));
            lemma_unstored(a);
        },
        None => {},
    }
}
pub proof fn lemma_recs(d: Seq<u8>, p: int, s: Seq<Entry>)
    requires at(d, p, image(s)),
    ensures recs_ok(d, p, s.len() as int), recs(d, p, s.len() as int) == s, recs_end(d, p, s.len() as int) == p + image(s).len(),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_at(d, p, image(s.drop_last()), rec(s.last()));
        lemma_recs(d, p, s.drop_last());
        lemma_rec(d, p + image(s.drop_last()).len(), s.last());
        assert(s.drop_last().push(s.last()) =~= s);
    } else { assert(recs(d, p, 0) =~= s); }
}
/// a stored index is read back
pub proof fn lemma_image_read(d: Seq<u8>, p: int, b: Seq<u8>, u: Utxos)
    requires at(d, p, b), utxo_image(b, u),
    ensures utxos_ok(d, p), entries(utxo_recs(d, p)) == u, utxos_end(d, p) == p + b.len(),
{
    let s = choose|s: Seq<Entry>| is_image(b, s, u);
    lemma_le_fix_all(s.len() as u32, 0);
    lemma_at(d, p, le_fix(s.len(), 4), image(s));
    lemma_recs(d, p + 4, s);
    lemma_pairs(s, u);
}
pub proof fn lemma_recs_len(d: Seq<u8>, p: int, n: int)
    requires n >= 0,
    ensures recs(d, p, n).len() == n,
    decreases n,
{ if n > 0 { lemma_recs_len(d, p, n - 1); } }
pub proof fn lemma_recs_step(d: Seq<u8>, p: int, k: int, n: int)
    requires recs_ok(d, p, n), 0 <= k < n,
    ensures
        recs_ok(d, p, k), recs_ok(d, p, k + 1), rec_ok(d, recs_end(d, p, k)), 0 <= recs_end(d, p, k) <= recs_end(d, p, k + 1) <= d.len(),
        recs(d, p, n).len() == n, recs(d, p, n)[k] == rec_at(d, recs_end(d, p, k)),
        recs(d, p, k) == recs(d, p, n).take(k),
    decreases n - k,
{
    lemma_recs_len(d, p, n);
    lemma_recs_prefix(d, p, k, n);
    lemma_recs_prefix(d, p, k + 1, n);
    lemma_recs_len(d, p, k);
    assert(recs(d, p, n).take(k + 1)[k] == recs(d, p, n)[k]);
}
pub proof fn lemma_recs_prefix(d: Seq<u8>, p: int, k: int, n: int)
    requires recs_ok(d, p, n), 0 <= k <= n,
    ensures recs_ok(d, p, k), recs(d, p, k) == recs(d, p, n).take(k), 0 <= recs_end(d, p, k) <= d.len(),
    decreases n - k,
{
    lemma_recs_len(d, p, n);
    if k < n {
        lemma_recs_prefix(d, p, k + 1, n);
        lemma_recs_len(d, p, k);
        assert(recs(d, p, k + 1).take(k) =~= recs(d, p, k));
        assert(recs(d, p, n).take(k + 1).take(k) =~= recs(d, p, n).take(k));
        assert(recs_ok(d, p, k));
        if k > 0 { assert(recs_ok(d, p, k) == (recs_ok(d, p, k - 1) && rec_ok(d, recs_end(d, p, k - 1)))); }
    } else {
        assert(recs(d, p, n).take(n) =~= recs(d, p, n));
        assert(recs_ok(d, p, k));
        if k > 0 { assert(recs_ok(d, p, k) == (recs_ok(d, p, k - 1) && rec_ok(d, recs_end(d, p, k - 1)))); }
    }
}
pub open spec fn by_value(s: Seq<(&TransactionOutput, &(u64, Option<Address>))>) -> Seq<Entry> { s.map_values(|p: (&TransactionOutput, &(u64, Option<Address>))| (*p.0, *p.1)) }
/// the bytes from `a` to `b` are the entries of `u`
pub open spec fn wrote(a: Seq<u8>, b: Seq<u8>, u: Utxos) -> bool { exists|s: Seq<Entry>| pairs(s, u) && #[trigger] (a + image(s)) == b }
pub proof fn lemma_wrote(a: Seq<u8>, b: Seq<u8>, s: Seq<(&TransactionOutput, &(u64, Option<Address>))>, u: Utxos)
    ensures listing(s, u) && b == a + image(by_value(s).take(s.len() as int)) ==> wrote(a, b, u),
{
    if listing(s, u) && b == a + image(by_value(s).take(s.len() as int)) {
        let l = by_value(s);
        assert(l.take(s.len() as int) =~= l);
        assert forall|i: int| 0 <= i < l.len() implies u.contains_key((#[trigger] l[i]).0) && u[l[i].0] == l[i].1 by { assert(u.contains_pair(*s[i].0, *s[i].1)); }
        assert forall|i: int, j: int| 0 <= i < j < l.len() implies (#[trigger] l[i]).0 != (#[trigger] l[j]).0 by {
            if l[i].0 == l[j].0 { assert(u.contains_pair(*s[i].0, *s[i].1) && u.contains_pair(*s[j].0, *s[j].1)); assert(s[i] == s[j]); }
        }
        assert forall|t: TransactionOutput| #[trigger] u.contains_key(t) implies held_in(l, t) by {
            assert(s.contains((&t, &u[t])));
            let i = choose|i: int| 0 <= i < s.len() && s[i] == (&t, &u[t]);
            assert(l[i].0 == t);
        }
        assert(pairs(l, u) && a + image(l) == b);
    }
}
pub proof fn lemma_wrote_none(a: Seq<u8>, u: Utxos)
    requires u.len() == 0,
    ensures wrote(a, a, u),
{
    let s = Seq::<Entry>::empty();
    assert(u.dom() =~= Set::empty());
    assert forall|t: TransactionOutput| #[trigger] u.contains_key(t) implies held_in(s, t) by { assert(u.dom().contains(t)); }
    assert(a + image(s) =~= a);
    assert(pairs(s, u));
}
pub proof fn lemma_write_step(a: Seq<u8>, b: Seq<u8>, s: Seq<(&TransactionOutput, &(u64, Option<Address>))>, n: int)
    requires 0 <= n < s.len(), b == a + image(by_value(s).take(n)) + rec((*s[n].0, *s[n].1)),
    ensures b == a + image(by_value(s).take(n + 1)),
{
    let l = by_value(s);
    assert(l.take(n + 1).drop_last() =~= l.take(n));
    assert(l.take(n + 1).last() == (*s[n].0, *s[n].1));
    assert(b =~= a + image(l.take(n + 1)));
}
pub proof fn lemma_pairs_len(s: Seq<Entry>, u: Utxos)
    requires pairs(s, u),
    ensures s.len() == u.len(),
    decreases s.len(),
{
    lemma_pairs(s, u);
    lemma_entries_len(s);
}
pub proof fn lemma_entries_len(s: Seq<Entry>)
    requires apart(s),
    ensures entries(s).len() == s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0 != (#[trigger] d[j]).0 by { assert(s[i] == d[i] && s[j] == d[j]); }
        lemma_entries_len(d);
        lemma_entries(d);
        if held_in(d, s.last().0) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == s.last().0; assert(s[i].0 == s[s.len() - 1].0); }
    }
}
//@ impl IndexedTransactionStoreBackend
pub open spec fn iwf(&self) -> bool { indexed(self.iu(), self.address_unspent_txos_map.m()) }
pub open spec fn iu(&self) -> Utxos { self.unspent_txo_address_map.m() }
//@ fn IndexedTransactionStoreBackend::new
//@ ret r
ensures r.wf(), r.utxos() == Map::<TransactionOutput, (u64, Option<Address>)>::empty(),
//@ at ret
proof { lemma_indexed_empty(__vx_r.iu(), __vx_r.address_unspent_txos_map.m()); }
//@ fn IndexedTransactionStoreBackend::large
//@ ret r
ensures r.wf(), r.utxos() == Map::<TransactionOutput, (u64, Option<Address>)>::empty(),
//@ at ret
proof { lemma_indexed_empty(__vx_r.iu(), __vx_r.address_unspent_txos_map.m()); }
//@ fn IndexedTransactionStoreBackend::from_reader
//@ ret r
requires old(reader).wf(), utxos_ok(old(reader).data(), old(reader).pos()),
ensures
    r.wf(), r.utxos() == entries(utxo_recs(old(reader).data(), old(reader).pos())),
    HashingBufferReader::moved(*old(reader), *final(reader), utxos_end(old(reader).data(), old(reader).pos())),
//@ at start
let ghost (d, p, n) = (reader.data(), reader.pos() + 4, le_at(reader.data(), reader.pos(), 4) as int);
proof { assert(recs_end(d, p, 0) == p); assert(recs(d, p, 0) =~= Seq::empty()); if n == 0 { lemma_recs_prefix(d, p, 0, 0); } }
//@ loop 0
invariant
    it0.seq().len() == n, recs_ok(d, p, n), apart(recs(d, p, n)),
    reader.wf(), reader.data() == d, p <= reader.pos() == recs_end(d, p, it0.index() as int),
    store.wf(), store.utxos() == entries(recs(d, p, it0.index() as int)),
//@ at loop 0 start
let ghost (k, q) = (it0.index() as int, reader.pos());
proof {
    lemma_recs_step(d, p, k, n);
    lemma_entries(recs(d, p, k));
    let (s, t) = (recs(d, p, n), rec_at(d, q).0);
    if held_in(s.take(k), t) { let i = choose|i: int| 0 <= i < k && (#[trigger] s.take(k)[i]).0 == t; assert(s[i].0 == s[k].0); }
    IndexedTransactionStoreBackend::lemma_addable(rec_at(d, q).1.1);
}
//@ at loop 0 end
proof {
    if d[q + 44] != 0 { lemma_unstored(address->0); }
    assert((txo, (value, address)) == rec_at(d, q));
    let s = recs(d, p, k + 1);
    assert(s.drop_last() =~= recs(d, p, k));
}
//@ fn IndexedTransactionStoreBackend::to_writer
requires self.wf(), self.utxos().len() <= u32::MAX,
ensures wrote(old(writer).written() + le_fix(self.utxos().len(), 4), final(writer).written(), self.utxos()),
//@ loop 0
invariant
    self.wf(), w0 == old(writer).written() + le_fix(self.utxos().len(), 4),
    listing(it0.seq(), self.iu()),
    writer.written() == w0 + image(by_value(it0.seq()).take(it0.index() as int)),
    it0.index() == it0.seq().len() ==> wrote(w0, writer.written(), self.iu()),
//@ at loop 0 before
let ghost w0 = writer.written();
proof { if self.iu().len() == 0 { lemma_wrote_none(w0, self.iu()); } assert(w0 + Seq::<u8>::empty() =~= w0); }
//@ at loop 0 start
let ghost w1 = writer.written();
//@ at loop 0 end
proof {
    let e = (*txo, (*value, *address));
    assert(writer.written() =~= w1 + rec(e));
    lemma_write_step(w0, writer.written(), it0.seq(), it0.index() as int);
    lemma_wrote(w0, writer.written(), it0.seq(), self.iu());
}
//@ impl IndexedTransactionStoreBackend as ReadonlyTransactionStoreBackendTrait
open spec fn rwf(&self) -> bool { self.iwf() }
open spec fn s_list(&self, a: Address) -> Listing { by_addr(self.iu(), a) }
//@ fn IndexedTransactionStoreBackend as ReadonlyTransactionStoreBackendTrait::iterate_transaction_outputs
//@ loop 0
invariant
    it0.seq().len() == txos.m().len(), it0.seq().no_duplicates(),
    listing(it0.seq(), txos.m()),
    __vx_trace@.len() == it0.index(),
    copied(__vx_trace@, it0.seq(), it0.index() as int),
    it0.index() == it0.seq().len() ==> lists(__vx_trace@, txos.m()),
//@ at loop 0 before
proof { if txos.m().len() == 0 { assert(txos.m().dom() =~= Set::empty()); assert forall|t: TransactionOutput| #[trigger] txos.m().contains_key(t) implies listed(__vx_trace@, t) by { assert(txos.m().dom().contains(t)); } } }
//@ at loop 0 end
proof {
    assert(copied(__vx_trace@, it0.seq(), it0.index() + 1));
    lemma_copied(__vx_trace@, it0.seq(), txos.m());
}
//@ at end
proof {
    let (x, a) = (self.address_unspent_txos_map.m(), *address);
    assert(index_at(x, a) == by_addr(self.iu(), a));
}
//@ impl IndexedTransactionStoreBackend as TransactionStoreBackendTrait
open spec fn wf(&self) -> bool { self.iwf() }
open spec fn utxos(&self) -> Utxos { self.iu() }
open spec fn below(&self) -> Utxos { Map::empty() }
open spec fn debts(&self) -> Seq<TransactionOutput> { Seq::empty() }
open spec fn keeps() -> bool { false }
open spec fn addable(was: Option<(u64, Option<Address>)>, a: Option<Address>) -> bool { was matches Some(p) ==> p.1 == a }
proof fn lemma_addable(a: Option<Address>) {}
//@ fn IndexedTransactionStoreBackend as TransactionStoreBackendTrait::spend_transaction_output
//@ at start
let ghost (u, x) = (self.iu(), self.address_unspent_txos_map.m());
proof {
    if u.contains_key(*txo) && u[*txo].1 is Some {
        let a = u[*txo].1->0;
        assert(index_at(x, a) == by_addr(u, a));
        assert(by_addr(u, a).contains_key(*txo));
    }
}
//@ at ret
proof {
    let y = self.address_unspent_txos_map.m();
    if u.contains_key(*txo) {
        if u[*txo].1 is Some {
            let a = u[*txo].1->0;
            assert(index_at(y, a) =~= index_at(x, a).remove(*txo));
        }
        lemma_indexed_remove(u, x, y, *txo);
    } else { assert(u.remove(*txo) =~= u); }
}
//@ fn IndexedTransactionStoreBackend as TransactionStoreBackendTrait::add_transaction_output
//@ at start
let ghost (u, x) = (self.iu(), self.address_unspent_txos_map.m());
let ghost (t, v, o) = (txo, value, address);
//@ at end
proof {
    let y = self.address_unspent_txos_map.m();
    if o is Some { assert(index_at(y, o->0) =~= index_at(x, o->0).insert(t, v)); }
    lemma_indexed_insert(u, x, y, t, v, o);
}
//@ impl IntermediaryTransactionStoreBackend as TransactionStoreBackendTrait
open spec fn wf(&self) -> bool { true }
open spec fn utxos(&self) -> Utxos { turned(self.unspent_txos.m()) }
open spec fn below(&self) -> Utxos { Map::empty() }
open spec fn debts(&self) -> Seq<TransactionOutput> { self.spent_txos@ }
open spec fn keeps() -> bool { true }
open spec fn addable(was: Option<(u64, Option<Address>)>, a: Option<Address>) -> bool { true }
proof fn lemma_addable(a: Option<Address>) {}
//@ fn IntermediaryTransactionStoreBackend as TransactionStoreBackendTrait::spend_transaction_output
//@ at start
let ghost u = self.unspent_txos.m();
//@ at ret
proof { assert(turned(u.remove(*txo)) =~= turned(u).remove(*txo)); if !u.contains_key(*txo) { assert(u.remove(*txo) =~= u); } }
//@ fn IntermediaryTransactionStoreBackend as TransactionStoreBackendTrait::add_transaction_output
//@ at start
let ghost u = self.unspent_txos.m();
proof { assert(turned(u.insert(txo, (address, value))) =~= turned(u).insert(txo, (value, address))); }
//@ fn IntermediaryTransactionStoreBackend::new
//@ ret r
ensures r.utxos() == Map::<TransactionOutput, (u64, Option<Address>)>::empty(), r.debts() == Seq::<TransactionOutput>::empty(),
//@ at ret
proof { assert(__vx_r.utxos() =~= Map::empty()); assert(__vx_r.debts() =~= Seq::empty()); }
//@ fn IntermediaryTransactionStoreBackend::spent_txos
//@ ret r
ensures r@ == self.debts(),
//@ fn IntermediaryTransactionStoreBackend::unspent_txos
//@ ret r
ensures turned(r.m()) == self.utxos(),
//@ impl TransactionStoreAugmentation
/// the augmentation spends from and adds to a base without confusing the two
pub open spec fn fits(&self, base: Utxos) -> bool {
    &&& self.store.iwf()
    &&& forall|t: TransactionOutput| #[trigger] self.store.iu().contains_key(t) && base.contains_key(t) ==> self.spent_txos@.contains(t)
    &&& forall|t: TransactionOutput| #[trigger] self.spent_txos@.contains(t) ==> base.contains_key(t)
}
pub open spec fn over(&self, base: Utxos) -> Utxos { overlaid(base, self.spent_txos@, self.store.iu()) }
//@ fn TransactionStoreAugmentation::new
//@ ret r
ensures r.spent_txos@ == Set::<TransactionOutput>::empty(), r.store.iwf(), r.store.iu() == Map::<TransactionOutput, (u64, Option<Address>)>::empty(),
//@ fn AugmentedTransactionStoreBackend::new
//@ ret r
requires base_store.wf(),
ensures r.wf(), r.utxos() == base_store.utxos(), r.base_store == base_store,
//@ at ret
proof { assert(__vx_r.utxos() =~= base_store.utxos()); }
//@ fn AugmentedTransactionStoreBackend::augmentation
//@ ret r
ensures *r == self.store,
//@ fn AugmentedTransactionStoreBackend::take_augmentation
//@ ret r
ensures r == self.store,
//@ impl AugmentedTransactionStoreBackend as TransactionStoreBackendTrait
open spec fn wf(&self) -> bool { self.base_store.wf() && self.store.fits(self.base_store.utxos()) }
open spec fn utxos(&self) -> Utxos { self.store.over(self.base_store.utxos()) }
open spec fn below(&self) -> Utxos { self.base_store.utxos() }
open spec fn debts(&self) -> Seq<TransactionOutput> { Seq::empty() }
open spec fn keeps() -> bool { false }
open spec fn addable(was: Option<(u64, Option<Address>)>, a: Option<Address>) -> bool { was is None }
proof fn lemma_addable(a: Option<Address>) {}
//@ fn AugmentedTransactionStoreBackend as TransactionStoreBackendTrait::spend_transaction_output
//@ at start
let ghost (b, s, w) = (self.base_store.utxos(), self.store.spent_txos@, self.store.store.iu());
proof {
    if !w.contains_key(*txo) {
        assert(w.remove(*txo) =~= w);
        assert(overlaid(b, s.insert(*txo), w) =~= overlaid(b, s, w).remove(*txo));
        if s.contains(*txo) { assert(s.insert(*txo) =~= s); }
    } else {
        assert(overlaid(b, s, w.remove(*txo)) =~= overlaid(b, s, w).remove(*txo));
    }
    if !b.contains_key(*txo) && !w.contains_key(*txo) { assert(overlaid(b, s, w).remove(*txo) =~= overlaid(b, s, w)); }
}
//@ fn AugmentedTransactionStoreBackend as TransactionStoreBackendTrait::add_transaction_output
//@ at start
let ghost (b, s, w) = (self.base_store.utxos(), self.store.spent_txos@, self.store.store.iu());
proof { assert(overlaid(b, s, w.insert(txo, (value, address))) =~= overlaid(b, s, w).insert(txo, (value, address))); }
//@ fn ReadonlyAugmentedTransactionStoreBackend::new
//@ ret r
ensures r.store == store, r.augmentation == augmentation,
//@ impl ReadonlyAugmentedTransactionStoreBackend as ReadonlyTransactionStoreBackendTrait
open spec fn rwf(&self) -> bool {
    &&& self.store.rwf()
    &&& self.augmentation matches Some(g) ==> g.store.iwf()
        && forall|a: Address, t: TransactionOutput| #[trigger] g.store.s_list(a).contains_key(t) && #[trigger] self.store.s_list(a).contains_key(t) ==> g.spent_txos@.contains(t)
}
open spec fn s_list(&self, a: Address) -> Listing {
    match self.augmentation {
        Some(g) => list_overlaid(self.store.s_list(a), g.spent_txos@, g.store.s_list(a)),
        None => self.store.s_list(a),
    }
}
//@ fn ReadonlyAugmentedTransactionStoreBackend as ReadonlyTransactionStoreBackendTrait::iterate_transaction_outputs
//@ loop 0
invariant
    self.rwf(), self.augmentation == Some(augmentation),
    it0.seq() == __vx_src0@, lists(it0.seq(), self.store.s_list(*address)),
    unspent_part(__vx_trace@, it0.seq(), it0.index() as int, self.store.s_list(*address), augmentation.spent_txos@),
//@ at loop 0 start
let ghost (l0, n) = (__vx_trace@, it0.index() as int);
//@ at loop 0 end
proof { lemma_unspent_step(l0, __vx_trace@, it0.seq(), n, self.store.s_list(*address), augmentation.spent_txos@); }
//@ at loop 0 after
let ghost part = __vx_trace@;
proof {
    let (m, g) = (self.store.s_list(*address), augmentation.spent_txos@);
    lemma_unspent_all(part, __vx_src0@, m, g);
    assert forall|r2: Seq<(TransactionOutput, u64)>| #[trigger] lists(r2, augmentation.store.s_list(*address)) implies lists(part + r2, self.s_list(*address)) by {
        lemma_lists_union(part, r2, m.remove_keys(g), augmentation.store.s_list(*address));
    }
}
//@ at ret
proof { if self.augmentation is None { assert(__vx_r@ =~= __vx_r@); } }
