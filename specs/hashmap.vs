//@ file hashmap.rs
//@ drop U64HashMap as IntoIterator
//@ top
use std::collections::HashMap;
use std::hash::{BuildHasher, Hasher};
use vstd::std_specs::hash::*;
use vstd::std_specs::iter::IteratorSpec;
broadcast use {crate::shim::shim_axioms, crate::shim::lemma_same_but, vstd::std_specs::hash::group_hash_axioms};
/// the hasher has no state of its own (assumed: the hash function is not under contract)
pub broadcast axiom fn axiom_hasher()
    ensures #[trigger] builds_valid_hashers::<BuildU64Hasher>();
pub broadcast proof fn lemma_txo_keys()
    ensures #[trigger] key_model::<TransactionOutput>(),
{ broadcast use axiom_hasher; axiom_key::<TransactionOutput>(); assert(builds_valid_hashers::<BuildU64Hasher>()); }
pub broadcast proof fn lemma_address_keys()
    ensures #[trigger] key_model::<Address>(),
{ broadcast use axiom_hasher; axiom_key::<Address>(); assert(builds_valid_hashers::<BuildU64Hasher>()); }
pub broadcast group group_keys { lemma_txo_keys, lemma_address_keys }
/// keys whose equality and hash are derived, hashed by a hasher without hidden state
pub open spec fn key_model<K>() -> bool { obeys_key_model::<K>() && builds_valid_hashers::<BuildU64Hasher>() }
/// `s` lists the pairs of `m`, each once
pub open spec fn listing<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    &&& s.no_duplicates() && s.len() == m.len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_pair(*(#[trigger] s[i]).0, *s[i].1)
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> s.contains((&k, &m[k]))
}
//@ impl U64HashMap
pub open spec fn m(&self) -> Map<K, V> { self.hashmap@ }
//@ fn U64HashMap::new
//@ ret r
ensures r.m() == Map::<K, V>::empty(),
//@ fn U64HashMap::with_capacity
//@ ret r
ensures r.m() == Map::<K, V>::empty(),
//@ fn U64HashMap::insert
//@ ret r
requires key_model::<K>(),
ensures
    final(self).m() == old(self).m().insert(key, value),
    r == if old(self).m().contains_key(key) { Some(old(self).m()[key]) } else { None },
//@ fn U64HashMap::remove
//@ ret r
requires key_model::<K>(),
ensures
    final(self).m() == old(self).m().remove(*key),
    r == if old(self).m().contains_key(*key) { Some(old(self).m()[*key]) } else { None },
//@ fn U64HashMap::get
//@ ret r
requires key_model::<K>(),
ensures
    r == if self.m().contains_key(*key) { Some(&self.m()[*key]) } else { None },
//@ fn U64HashMap::get_mut
//@ ret r
requires key_model::<K>(),
ensures
    match r {
        Some(v) => old(self).m().contains_key(*key) && *v == old(self).m()[*key] && final(self).m() == old(self).m().insert(*key, *final(v)),
        None => !old(self).m().contains_key(*key) && final(self).m() == old(self).m(),
    },
//@ fn U64HashMap::len
//@ ret r
ensures
    key_model::<K>() ==> r == self.m().len() && self.m().dom().finite(),
//@ fn U64HashMap::iter
//@ ret r
ensures
    r.obeys_prophetic_iter_laws(),
    key_model::<K>() ==> listing(r.remaining(), self.m()) && r.decrease() is Some,
//@ fn &U64HashMap as IntoIterator::into_iter
//@ ret r
ensures
    r.obeys_prophetic_iter_laws(),
    key_model::<K>() ==> listing(r.remaining(), self.hashmap@) && r.decrease() is Some,
//@ fn U64Hasher as Hasher::write
//@ external
