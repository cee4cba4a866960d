//@ file block_file_reader.rs
//@ drop use Regex
//@ drop use read_dir
//@ top
use std::collections::HashMap;
use vstd::std_specs::iter::IteratorSpec;
broadcast use {crate::shim::shim_axioms, crate::shim::lemma_same_but, vstd::std_specs::hash::group_hash_axioms};
use crate::block::*;
use crate::transaction::*;
use crate::hashing_buffer_reader::{cut, le_at};
use crate::thread_pool::results;
use crate::batcher::{cat, lemma_cat};
use crate::thread_pool::{shuffled, permutes};
use crate::nums::*;
// ---- the records of a block file: a 4-byte marker, a 4-byte length, that many bytes, the next record
pub open spec fn marker() -> u64 { 3652501241 }
pub open spec fn rec_end(d: Seq<u8>, p: int) -> int { p + 8 + le_at(d, p + 4, 4) }
/// no record at `p`: the end of the file, or zeros where a marker should be
pub open spec fn stops(d: Seq<u8>, p: int) -> bool { forall|i: int| p <= i < p + 4 && i < d.len() ==> #[trigger] d[i] == 0 }
pub open spec fn file_ok(d: Seq<u8>, p: int) -> bool
    decreases if p < d.len() { d.len() - p } else { 0 },
{
    0 <= p && (stops(d, p) || (p + 88 <= d.len() && le_at(d, p, 4) == marker() && file_ok(d, rec_end(d, p))))
}
/// where its records start
pub open spec fn recs(d: Seq<u8>, p: int) -> Seq<int>
    decreases if p < d.len() { d.len() - p } else { 0 },
{
    if p < 0 || stops(d, p) || p + 88 > d.len() { Seq::empty() } else { seq![p] + recs(d, rec_end(d, p)) }
}
/// the entry describes the record at `p` of this file
pub open spec fn is_entry(b: FileBlock, path: Seq<char>, p: int) -> bool {
    let d = disk(path);
    &&& b.file_path@ == path && b.offset == p + 8 && b.length == le_at(d, p + 4, 4)
    &&& is_header(b.header, cut(d, p + 8, p + 88))
}
/// one entry per record, in order
pub open spec fn is_listing(b: Seq<FileBlock>, path: Seq<char>, r: Seq<int>) -> bool {
    b.len() == r.len() && forall|i: int| 0 <= i < b.len() ==> is_entry(#[trigger] b[i], path, r[i])
}
/// the bytes it stands for
pub open spec fn bytes_of(b: FileBlock) -> Seq<u8> { cut(disk(b.file_path@), b.offset as int, b.offset + b.length) }
/// the transactions in a block's bytes
pub open spec fn file_txs(b: Seq<u8>) -> Seq<Transaction> { choose|v: Seq<Transaction>| holds(v, b) }
pub open spec fn holds(v: Seq<Transaction>, b: Seq<u8>) -> bool { is_txs(v, tail(b), block_txs_at(b), block_count(b)) }
/// they are determined by the bytes
pub proof fn lemma_file_txs(v: Seq<Transaction>, b: Seq<u8>)
    requires holds(v, b),
    ensures v == file_txs(b),
{
    let w = file_txs(b);
    assert(holds(w, b));
    let (s, p) = (tail(b), block_txs_at(b));
    assert forall|k: int| 0 <= k < v.len() implies v[k] == w[k] by {
        let (x, y) = (v[k], w[k]);
        assert(is_tx(x, s, txs_end(s, p, k)) && is_tx(y, s, txs_end(s, p, k)));
        assert(arr::<32>(x.hash@) == x.hash && arr::<32>(y.hash@) == y.hash);
        axiom_vec_ext(x.inputs, y.inputs);
        let (m, n) = (outs_view(x.outputs@), outs_view(y.outputs@));
        assert(m.len() == n.len() && m.len() == x.outputs@.len() && n.len() == y.outputs@.len());
        assert forall|i: int| 0 <= i < x.outputs@.len() implies x.outputs@[i] == y.outputs@[i] by {
            assert(m[i] == n[i]);
            axiom_vec_ext(x.outputs@[i].script, y.outputs@[i].script);
        }
        assert(m.len() == n.len());
        assert(x.outputs@ =~= y.outputs@);
        axiom_vec_ext(x.outputs, y.outputs);
    }
    assert(v =~= w);
}
pub proof fn lemma_recs(d: Seq<u8>, p: int)
    requires 0 <= p,
    ensures
        stops(d, p) ==> recs(d, p) =~= Seq::<int>::empty(),
        !stops(d, p) && p + 88 <= d.len() ==> recs(d, p) =~= seq![p] + recs(d, rec_end(d, p)),
{}
/// what the first 88 bytes at `p` say
pub proof fn lemma_at_record(b: Seq<u8>, d: Seq<u8>, p: int, n: int)
    requires
        b.len() == 88, 0 <= p, n == (if p >= d.len() { 0 } else if d.len() - p < 88 { d.len() - p } else { 88 }),
        forall|i: int| 0 <= i < n ==> #[trigger] b[i] == d[p + i], forall|i: int| n <= i < 88 ==> #[trigger] b[i] == 0,
    ensures
        stops(d, p) == (le_at(b, 0, 4) == 0),
        n == 88 ==> b =~= cut(d, p, p + 88) && le_at(b, 0, 4) == le_at(d, p, 4) && le_at(b, 4, 4) == le_at(d, p + 4, 4) && cut(b, 8, 88) == cut(d, p + 8, p + 88),
{
    let z = b.subrange(0, 4);
    lemma_le_val_zero(z);
    if stops(d, p) { assert forall|i: int| 0 <= i < 4 implies z[i] == 0 by { if i < n { assert(d[p + i] == 0); } else { assert(b[i] == 0); } } }
    if le_at(b, 0, 4) == 0 { assert forall|i: int| p <= i < p + 4 && i < d.len() implies #[trigger] d[i] == 0 by { assert(z[i - p] == 0); assert(b[i - p] == d[p + (i - p)]); } }
    if n == 88 {
        assert(b =~= cut(d, p, p + 88));
        assert(b.subrange(0, 4) =~= d.subrange(p, p + 4));
        assert(b.subrange(4, 8) =~= d.subrange(p + 4, p + 8));
        assert(cut(b, 8, 88) =~= cut(d, p + 8, p + 88));
    }
}
pub proof fn lemma_le_val_zero(s: Seq<u8>)
    ensures (le_val(s, 256) == 0) == (forall|i: int| 0 <= i < s.len() ==> s[i] == 0),
    decreases s.len(),
{
    if s.len() > 0 {
        let r = s.drop_first();
        lemma_le_val_zero(r);
        if le_val(s, 256) == 0 { assert forall|i: int| 0 <= i < s.len() implies s[i] == 0 by { if i > 0 { assert(r[i - 1] == s[i]); } } }
        if forall|i: int| 0 <= i < s.len() ==> s[i] == 0 { assert forall|i: int| 0 <= i < r.len() implies r[i] == 0 by { assert(r[i] == s[i + 1]); } }
    }
}
// ---- the block files of a directory
/// `names` are the block files of `dir`, each once
pub open spec fn names_of(dir: Seq<char>, names: Seq<String>) -> bool {
    &&& forall|i: int| 0 <= i < names.len() ==> is_blk_file(dir, (#[trigger] names[i])@)
    &&& forall|i: int, j: int| 0 <= i < j < names.len() ==> (#[trigger] names[i])@ != (#[trigger] names[j])@
    &&& forall|t: Seq<char>| #[trigger] is_blk_file(dir, t) ==> exists|i: int| 0 <= i < names.len() && (#[trigger] names[i])@ == t
}
pub open spec fn views(names: Seq<String>) -> Seq<Seq<char>> { Seq::new(names.len(), |i: int| names[i]@) }
/// the block file names among the first `k`
pub open spec fn picks(list: Seq<Seq<char>>, k: int) -> Seq<Seq<char>>
    decreases k,
{ if k <= 0 { Seq::empty() } else if is_blk_name(list[k - 1]) { picks(list, k - 1).push(list[k - 1]) } else { picks(list, k - 1) } }
pub proof fn lemma_picks_upto(list: Seq<Seq<char>>, k: int)
    requires list.no_duplicates(), 0 <= k <= list.len(),
    ensures
        picks(list, k).no_duplicates(),
        forall|t: Seq<char>| #[trigger] picks(list, k).contains(t) == (list.take(k).contains(t) && is_blk_name(t)),
    decreases k,
{
    if k > 0 {
        lemma_picks_upto(list, k - 1);
        let (a, t) = (picks(list, k - 1), list[k - 1]);
        assert(list.take(k) =~= list.take(k - 1).push(t));
        assert(!list.take(k - 1).contains(t));
        assert(!a.contains(t));
        assert forall|u: Seq<char>| #[trigger] picks(list, k).contains(u) == (list.take(k).contains(u) && is_blk_name(u)) by {
            lemma_push_contains(list.take(k - 1), t, u);
            lemma_push_contains(a, t, u);
            assert(a.contains(u) == (list.take(k - 1).contains(u) && is_blk_name(u)));
        }
    }
}
pub proof fn lemma_picks(dir: Seq<char>, names: Seq<String>)
    ensures views(names) == picks(file_list(dir), file_list(dir).len() as int) ==> names_of(dir, names),
{
    let list = file_list(dir);
    let n = list.len() as int;
    if views(names) == picks(list, n) {
        let v = views(names);
        axiom_names(dir);
        lemma_picks_upto(list, n);
        assert(list.take(n) =~= list);
        assert forall|i: int| 0 <= i < names.len() implies is_blk_file(dir, (#[trigger] names[i])@) by { assert(v[i] == names[i]@); assert(v.contains(v[i])); }
        assert forall|i: int, j: int| 0 <= i < j < names.len() implies (#[trigger] names[i])@ != (#[trigger] names[j])@ by { assert(v[i] == names[i]@ && v[j] == names[j]@); }
        assert forall|t: Seq<char>| #[trigger] is_blk_file(dir, t) implies exists|i: int| 0 <= i < names.len() && (#[trigger] names[i])@ == t by {
            assert(v.contains(t));
            let i = v.index_of(t);
            assert(names[i]@ == t);
        }
    }
}
pub proof fn lemma_reordered(dir: Seq<char>, a: Seq<String>, b: Seq<String>)
    requires names_of(dir, a), a.to_multiset() == b.to_multiset(),
    ensures names_of(dir, b),
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert(a.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { if i < j { assert(a[i]@ != a[j]@); } else { assert(a[j]@ != a[i]@); } } }
    a.lemma_multiset_has_no_duplicates();
    b.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int| 0 <= i < b.len() implies a.contains(#[trigger] b[i]) by { assert(b.contains(b[i])); assert(b.to_multiset().count(b[i]) > 0); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i])@ != (#[trigger] b[j])@ by {
        let (x, y) = (a.index_of(b[i]), a.index_of(b[j]));
        assert(a[x] == b[i] && a[y] == b[j] && b[i] != b[j]);
        if x < y { assert(a[x]@ != a[y]@); } else { assert(a[y]@ != a[x]@); }
    }
    assert forall|t: Seq<char>| #[trigger] is_blk_file(dir, t) implies exists|i: int| 0 <= i < b.len() && (#[trigger] b[i])@ == t by {
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == t;
        assert(a.contains(a[i]));
        assert(b.to_multiset().count(a[i]) > 0);
        let j = b.index_of(a[i]);
        assert(b[j]@ == t);
    }
    assert forall|i: int| 0 <= i < b.len() implies is_blk_file(dir, (#[trigger] b[i])@) by { assert(a.contains(b[i])); let x = a.index_of(b[i]); assert(is_blk_file(dir, a[x]@)); }
}
pub open spec fn is_blk_file(dir: Seq<char>, t: Seq<char>) -> bool { file_list(dir).contains(t) && is_blk_name(t) }
pub open spec fn files_readable(dir: Seq<char>) -> bool { forall|t: Seq<char>| #[trigger] is_blk_file(dir, t) ==> disk_readable(path_join(dir, t)) }
pub open spec fn files_ok(dir: Seq<char>) -> bool { forall|t: Seq<char>| #[trigger] is_blk_file(dir, t) ==> file_ok(disk(path_join(dir, t)), 0) }
/// the i-th part lists the records of the i-th file
pub open spec fn found_in(dir: Seq<char>, names: Seq<String>, parts: Seq<Vec<FileBlock>>) -> bool {
    names.len() == parts.len() && forall|i: int| 0 <= i < parts.len() ==> is_listing((#[trigger] parts[i])@, path_join(dir, names[i]@), recs(disk(path_join(dir, names[i]@)), 0))
}
pub open spec fn in_file(dir: Seq<char>, name: Seq<char>, b: Seq<FileBlock>) -> bool { let d = disk(path_join(dir, name)); file_ok(d, 0) && is_listing(b, path_join(dir, name), recs(d, 0)) }
pub open spec fn can_scan(r: &BlockFileReader, name: &String) -> bool { disk_readable(path_join(r.path@, name@)) && file_ok(disk(path_join(r.path@, name@)), 0) }
pub open spec fn scanned(r: &BlockFileReader, name: &String, b: &Vec<FileBlock>) -> bool { is_listing(b@, path_join(r.path@, name@), recs(disk(path_join(r.path@, name@)), 0)) }
/// `b` lists the records of all block files, file by file
pub open spec fn all_found(dir: Seq<char>, b: Seq<FileBlock>) -> bool {
    exists|names: Seq<String>, parts: Seq<Vec<FileBlock>>| names_of(dir, names) && #[trigger] found_in(dir, names, parts) && b == cat(parts)
}
pub proof fn lemma_renamed(dir: Seq<char>, names: Seq<String>, perm: Seq<int>, renamed: Seq<String>, outs: Seq<Vec<FileBlock>>, parts: Seq<Vec<FileBlock>>)
    requires names_of(dir, names), permutes(perm, outs, parts), outs.len() == names.len(), renamed == Seq::new(perm.len(), |j: int| names[perm[j]]),
    ensures names_of(dir, renamed),
{
    assert forall|t: Seq<char>| #[trigger] is_blk_file(dir, t) implies exists|i: int| 0 <= i < renamed.len() && (#[trigger] renamed[i])@ == t by {
        let i = choose|i: int| 0 <= i < names.len() && (#[trigger] names[i])@ == t;
        assert(perm.contains(i));
        let j = perm.index_of(i);
        assert(renamed[j] == names[i]);
    }
    assert forall|i: int, j: int| 0 <= i < j < renamed.len() implies (#[trigger] renamed[i])@ != (#[trigger] renamed[j])@ by {
        let (a, b) = (perm[i], perm[j]);
        assert(a != b);
        if a < b { assert(names[a]@ != names[b]@); } else { assert(names[b]@ != names[a]@); }
    }
}
// ---- the longest chain
pub open spec fn zero() -> [u8; 32] { arr::<32>(Seq::new(32, |i: int| 0u8)) }
pub broadcast proof fn lemma_zero(a: [u8; 32])
    ensures (forall|i: int| 0 <= i < 32 ==> #[trigger] a@[i] == 0) ==> #[trigger] a@ == zero()@ && a == zero(),
{
    broadcast use crate::shim::shim_axioms;
    if forall|i: int| 0 <= i < 32 ==> #[trigger] a@[i] == 0 { assert(a@ =~= Seq::new(32, |i: int| 0u8)); assert(arr::<32>(a@) == a); }
}
pub open spec fn hash_of(b: FileBlock) -> [u8; 32] { b.header.hash }
pub open spec fn prev_of(b: FileBlock) -> [u8; 32] { b.header.previous_block_hash }
/// an id stands for one block with one parent, and is not zero
pub open spec fn ids_ok(b: Seq<FileBlock>) -> bool {
    &&& forall|i: int| 0 <= i < b.len() ==> hash_of(#[trigger] b[i]) != zero()
    &&& forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && hash_of(#[trigger] b[i]) == hash_of(#[trigger] b[j]) ==> prev_of(b[i]) == prev_of(b[j])
}
/// a chain of blocks from the collection `b`, starting after the zero id
pub open spec fn is_chain(c: Seq<FileBlock>, b: Seq<FileBlock>) -> bool {
    &&& forall|i: int| 0 <= i < c.len() ==> among(#[trigger] c[i], b)
    &&& forall|i: int| 0 <= i < c.len() ==> prev_of(#[trigger] c[i]) == if i == 0 { zero() } else { hash_of(c[i - 1]) }
}
/// a block of the collection, at whatever height
pub open spec fn among(x: FileBlock, b: Seq<FileBlock>) -> bool { exists|i: int| 0 <= i < b.len() && at_height(#[trigger] b[i], x.height) == x }
pub open spec fn at_height(x: FileBlock, h: usize) -> FileBlock { FileBlock { height: h, ..x } }
/// `r` is a longest such chain, its heights counting from zero
pub open spec fn is_longest(r: Seq<FileBlock>, b: Seq<FileBlock>) -> bool {
    &&& is_chain(r, b) && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).height == i
    &&& forall|c: Seq<FileBlock>| #[trigger] is_chain(c, b) ==> c.len() <= r.len()
}
/// parent of each id
pub open spec fn parents(m: Map<[u8; 32], [u8; 32]>, b: Seq<FileBlock>) -> bool {
    &&& forall|i: int| 0 <= i < b.len() ==> m.contains_key(hash_of(#[trigger] b[i])) && m[hash_of(b[i])] == prev_of(b[i])
    &&& forall|x: [u8; 32]| #[trigger] m.contains_key(x) ==> exists|i: int| 0 <= i < b.len() && hash_of(#[trigger] b[i]) == x
    &&& m.dom().finite() && m.dom().len() <= b.len() && !m.contains_key(zero())
}
pub proof fn lemma_parents(b: Seq<FileBlock>) -> (m: Map<[u8; 32], [u8; 32]>)
    requires ids_ok(b),
    ensures parents(m, b),
    decreases b.len(),
{
    if b.len() == 0 { Map::empty() } else {
        let r = b.drop_last();
        assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && hash_of(#[trigger] r[i]) == hash_of(#[trigger] r[j]) implies prev_of(r[i]) == prev_of(r[j]) by { assert(r[i] == b[i] && r[j] == b[j]); }
        assert forall|i: int| 0 <= i < r.len() implies hash_of(#[trigger] r[i]) != zero() by { assert(r[i] == b[i]); }
        let m0 = lemma_parents(r);
        let x = b.last();
        let m = m0.insert(hash_of(x), prev_of(x));
        assert forall|i: int| 0 <= i < b.len() implies m.contains_key(hash_of(#[trigger] b[i])) && m[hash_of(b[i])] == prev_of(b[i]) by { if i < r.len() { assert(r[i] == b[i]); } }
        assert forall|y: [u8; 32]| #[trigger] m.contains_key(y) implies exists|i: int| 0 <= i < b.len() && hash_of(#[trigger] b[i]) == y by {
            if y == hash_of(x) { assert(hash_of(b[b.len() - 1]) == y); } else {
                assert(m0.contains_key(y));
                let i = choose|i: int| 0 <= i < r.len() && hash_of(#[trigger] r[i]) == y;
                assert(b[i] == r[i]);
            }
        }
        assert(m.dom() =~= m0.dom().insert(hash_of(x)));
        m
    }
}
/// `x` is `d` steps above the zero id
pub open spec fn depth(m: Map<[u8; 32], [u8; 32]>, x: [u8; 32], d: int) -> bool
    decreases d,
{ d >= 0 && if d == 0 { x == zero() } else { m.contains_key(x) && depth(m, m[x], d - 1) } }
pub proof fn lemma_depth_once(m: Map<[u8; 32], [u8; 32]>, x: [u8; 32], d: int, e: int)
    requires !m.contains_key(zero()), depth(m, x, d), depth(m, x, e),
    ensures d == e,
    decreases d,
{ if d > 0 && e > 0 { lemma_depth_once(m, m[x], d - 1, e - 1); } }
/// no id is `d` steps above the zero id
pub open spec fn none_at(m: Map<[u8; 32], [u8; 32]>, d: int) -> bool { forall|x: [u8; 32]| !#[trigger] depth(m, x, d) }
/// the ids met on the way to zero
pub open spec fn way(m: Map<[u8; 32], [u8; 32]>, x: [u8; 32], d: int) -> Set<[u8; 32]>
    decreases d,
{ if d <= 0 { Set::empty() } else { way(m, m[x], d - 1).insert(x) } }
pub proof fn lemma_way(m: Map<[u8; 32], [u8; 32]>, x: [u8; 32], d: int)
    requires !m.contains_key(zero()), m.dom().finite(), depth(m, x, d),
    ensures
        way(m, x, d).finite(), way(m, x, d).len() == d, way(m, x, d).subset_of(m.dom()),
        forall|y: [u8; 32]| #[trigger] way(m, x, d).contains(y) ==> exists|e: int| 0 < e <= d && #[trigger] depth(m, y, e),
        d <= m.dom().len(),
    decreases d,
{
    if d > 0 {
        lemma_way(m, m[x], d - 1);
        let w = way(m, m[x], d - 1);
        if w.contains(x) {
            let e = choose|e: int| 0 < e <= d - 1 && #[trigger] depth(m, x, e);
            lemma_depth_once(m, x, d, e);
        }
        assert forall|y: [u8; 32]| #[trigger] way(m, x, d).contains(y) implies exists|e: int| 0 < e <= d && #[trigger] depth(m, y, e) by {
            if y == x { assert(depth(m, y, d)); } else {
                assert(w.contains(y));
                let e = choose|e: int| 0 < e <= d - 1 && #[trigger] depth(m, y, e);
                assert(depth(m, y, e));
            }
        }
    }
    vstd::set_lib::lemma_len_subset(way(m, x, d), m.dom());
}
/// a chain of `n` blocks ends at depth `n`
pub proof fn lemma_chain_depth(m: Map<[u8; 32], [u8; 32]>, c: Seq<FileBlock>, b: Seq<FileBlock>)
    requires parents(m, b), is_chain(c, b),
    ensures c.len() > 0 ==> depth(m, hash_of(c.last()), c.len() as int),
    decreases c.len(),
{
    if c.len() > 0 {
        let r = c.drop_last();
        assert forall|i: int| 0 <= i < r.len() implies among(#[trigger] r[i], b) && prev_of(r[i]) == (if i == 0 { zero() } else { hash_of(r[i - 1]) }) by { assert(c[i] == r[i]); if i > 0 { assert(c[i - 1] == r[i - 1]); } }
        lemma_chain_depth(m, r, b);
        let n = c.len() - 1;
        let x = c[n];
        let i = choose|i: int| 0 <= i < b.len() && at_height(#[trigger] b[i], x.height) == x;
        assert(hash_of(b[i]) == hash_of(x) && prev_of(b[i]) == prev_of(x));
        if n == 0 { assert(depth(m, zero(), 0)); } else { assert(r.last() == c[n - 1]); }
    }
}
/// the children recorded so far
pub open spec fn children(m: Map<[u8; 32], Vec<[u8; 32]>>, b: Seq<FileBlock>) -> bool {
    &&& forall|i: int| 0 <= i < b.len() ==> has_child(m, #[trigger] b[i])
    &&& forall|p: [u8; 32], j: int| m.contains_key(p) && 0 <= j < m[p]@.len() ==> is_child(b, p, #[trigger] m[p]@[j])
}
pub open spec fn has_child(m: Map<[u8; 32], Vec<[u8; 32]>>, x: FileBlock) -> bool { m.contains_key(prev_of(x)) && m[prev_of(x)]@.contains(hash_of(x)) }
pub open spec fn is_child(b: Seq<FileBlock>, p: [u8; 32], x: [u8; 32]) -> bool { exists|i: int| 0 <= i < b.len() && hash_of(#[trigger] b[i]) == x && prev_of(b[i]) == p }
pub proof fn lemma_children(m0: Map<[u8; 32], Vec<[u8; 32]>>, m: Map<[u8; 32], Vec<[u8; 32]>>, b: Seq<FileBlock>, x: FileBlock)
    requires
        children(m0, b), m == m0.insert(prev_of(x), m[prev_of(x)]),
        m[prev_of(x)]@ == if m0.contains_key(prev_of(x)) { m0[prev_of(x)]@.push(hash_of(x)) } else { seq![hash_of(x)] },
    ensures children(m, b.push(x)),
{
    let c = b.push(x);
    let q = prev_of(x);
    assert forall|i: int| 0 <= i < c.len() implies has_child(m, #[trigger] c[i]) by {
        let l = m[q]@;
        if i == b.len() { assert(l[l.len() - 1] == hash_of(x)); } else {
            assert(c[i] == b[i]);
            assert(has_child(m0, b[i]));
            if prev_of(b[i]) == q {
                let k = m0[q]@.index_of(hash_of(b[i]));
                assert(m0[q]@.contains(hash_of(b[i])));
                assert(l[k] == hash_of(b[i]));
            }
        }
    }
    assert forall|p: [u8; 32], j: int| m.contains_key(p) && 0 <= j < m[p]@.len() implies is_child(c, p, #[trigger] m[p]@[j]) by {
        if p == q && j == m[p]@.len() - 1 { assert(c[b.len() as int] == x); } else {
            assert(m0.contains_key(p) && m0[p]@[j] == m[p]@[j]);
            assert(is_child(b, p, m0[p]@[j]));
            let i = choose|i: int| 0 <= i < b.len() && hash_of(#[trigger] b[i]) == m0[p]@[j] && prev_of(b[i]) == p;
            assert(c[i] == b[i]);
        }
    }
}
/// each id leads to a block of the collection that has it
pub open spec fn index_ok(m: Map<[u8; 32], FileBlock>, b: Seq<FileBlock>) -> bool {
    &&& forall|i: int| 0 <= i < b.len() ==> m.contains_key(hash_of(#[trigger] b[i]))
    &&& forall|x: [u8; 32]| #[trigger] m.contains_key(x) ==> exists|i: int| 0 <= i < b.len() && #[trigger] b[i] == m[x] && hash_of(b[i]) == x
}
pub proof fn lemma_index(m: Map<[u8; 32], FileBlock>, b: Seq<FileBlock>, x: FileBlock)
    requires index_ok(m, b),
    ensures index_ok(m.insert(hash_of(x), x), b.push(x)),
{
    let (n, c) = (m.insert(hash_of(x), x), b.push(x));
    assert forall|i: int| 0 <= i < c.len() implies n.contains_key(hash_of(#[trigger] c[i])) by { if i < b.len() { assert(c[i] == b[i]); } }
    assert forall|y: [u8; 32]| #[trigger] n.contains_key(y) implies exists|i: int| 0 <= i < c.len() && #[trigger] c[i] == n[y] && hash_of(c[i]) == y by {
        if y == hash_of(x) { assert(c[b.len() as int] == n[y]); } else {
            assert(m.contains_key(y));
            let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == m[y] && hash_of(b[i]) == y;
            assert(c[i] == b[i]);
        }
    }
}
/// exactly the ids at depth `d`
pub open spec fn level(h: Seq<[u8; 32]>, m: Map<[u8; 32], [u8; 32]>, d: int) -> bool { forall|x: [u8; 32]| #[trigger] h.contains(x) == depth(m, x, d) }
/// the children of the first `k` heads
pub open spec fn next_level(h: Seq<[u8; 32]>, heads: Seq<[u8; 32]>, k: int, m: Map<[u8; 32], [u8; 32]>) -> bool {
    forall|x: [u8; 32]| #[trigger] h.contains(x) == (m.contains_key(x) && heads.take(k).contains(m[x]))
}
pub proof fn lemma_next(h: Seq<[u8; 32]>, h0: Seq<[u8; 32]>, heads: Seq<[u8; 32]>, k: int, par: Map<[u8; 32], [u8; 32]>, m: Map<[u8; 32], Vec<[u8; 32]>>, b: Seq<FileBlock>)
    requires
        parents(par, b), children(m, b), 0 <= k < heads.len(), next_level(h0, heads, k, par),
        h == if m.contains_key(heads[k]) { h0 + m[heads[k]]@ } else { h0 },
    ensures next_level(h, heads, k + 1, par),
{
    let q = heads[k];
    let l = if m.contains_key(q) { m[q]@ } else { Seq::empty() };
    assert(h =~= h0 + l);
    assert(heads.take(k + 1) =~= heads.take(k).push(q));
    assert forall|x: [u8; 32]| #[trigger] h.contains(x) == (par.contains_key(x) && heads.take(k + 1).contains(par[x])) by {
        assert(heads.take(k + 1).contains(par[x]) == (heads.take(k).contains(par[x]) || par[x] == q)) by { lemma_push_contains(heads.take(k), q, par[x]); }
        lemma_sum_contains(h0, l, x);
        if l.contains(x) {
            let j = l.index_of(x);
            assert(is_child(b, q, m[q]@[j]));
            let i = choose|i: int| 0 <= i < b.len() && hash_of(#[trigger] b[i]) == m[q]@[j] && prev_of(b[i]) == q;
            assert(par.contains_key(hash_of(b[i])) && par[x] == q);
        }
        if par.contains_key(x) && par[x] == q {
            let i = choose|i: int| 0 <= i < b.len() && hash_of(#[trigger] b[i]) == x;
            assert(par[hash_of(b[i])] == prev_of(b[i]));
            assert(has_child(m, b[i]));
        }
    }
}
pub proof fn lemma_push_contains<T>(s: Seq<T>, a: T, x: T)
    ensures s.push(a).contains(x) == (s.contains(x) || x == a),
{
    if s.contains(x) { let i = s.index_of(x); assert(s.push(a)[i] == x); }
    if x == a { assert(s.push(a)[s.len() as int] == x); }
}
pub proof fn lemma_sum_contains<T>(s: Seq<T>, t: Seq<T>, x: T)
    ensures (s + t).contains(x) == (s.contains(x) || t.contains(x)),
{
    if s.contains(x) { let i = s.index_of(x); assert((s + t)[i] == x); }
    if t.contains(x) { let i = t.index_of(x); assert((s + t)[s.len() + i] == x); }
    if (s + t).contains(x) { let i = (s + t).index_of(x); if i < s.len() { assert(s[i] == x); } else { assert(t[i - s.len()] == x); } }
}
pub proof fn lemma_level(h: Seq<[u8; 32]>, heads: Seq<[u8; 32]>, m: Map<[u8; 32], [u8; 32]>, d: int)
    requires level(heads, m, d), d >= 0, next_level(h, heads, heads.len() as int, m), m.dom().finite(), !m.contains_key(zero()),
    ensures level(h, m, d + 1), h.len() > 0 ==> d + 1 <= m.dom().len(), h.len() == 0 ==> none_at(m, d + 1),
{
    assert(heads.take(heads.len() as int) =~= heads);
    assert forall|x: [u8; 32]| #[trigger] h.contains(x) == depth(m, x, d + 1) by {
        if m.contains_key(x) { assert(heads.contains(m[x]) == depth(m, m[x], d)); }
    }
    if h.len() > 0 { assert(h.contains(h[0])); lemma_way(m, h[0], d + 1); }
    if h.len() == 0 { assert forall|x: [u8; 32]| !#[trigger] depth(m, x, d + 1) by { assert(!h.contains(x)); } }
}
pub proof fn lemma_no_deeper(m: Map<[u8; 32], [u8; 32]>, x: [u8; 32], d: int, t: int)
    requires 0 <= t <= d, depth(m, x, d),
    ensures exists|y: [u8; 32]| depth(m, y, t),
    decreases d,
{ if t < d { lemma_no_deeper(m, m[x], d - 1, t); } }
/// what the walk from the top down has collected
pub open spec fn walked(v: Seq<FileBlock>, b: Seq<FileBlock>, top: int, current: [u8; 32]) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> among(#[trigger] v[i], b) && v[i].height == top - 1 - i
    &&& forall|i: int| 0 <= i < v.len() ==> prev_of(#[trigger] v[i]) == if i == v.len() - 1 { current } else { hash_of(v[i + 1]) }
}
/// everything up to depth `d` is still there
pub open spec fn left_ok(m: Map<[u8; 32], FileBlock>, b: Seq<FileBlock>, par: Map<[u8; 32], [u8; 32]>, d: int) -> bool {
    &&& forall|x: [u8; 32]| #[trigger] m.contains_key(x) ==> exists|i: int| 0 <= i < b.len() && #[trigger] b[i] == m[x] && hash_of(b[i]) == x
    &&& forall|x: [u8; 32], e: int| 0 < e <= d && #[trigger] depth(par, x, e) ==> m.contains_key(x)
}
pub proof fn lemma_left(m: Map<[u8; 32], FileBlock>, b: Seq<FileBlock>, par: Map<[u8; 32], [u8; 32]>, d: int)
    requires index_ok(m, b), parents(par, b),
    ensures left_ok(m, b, par, d),
{
    assert forall|x: [u8; 32], e: int| 0 < e <= d && #[trigger] depth(par, x, e) implies m.contains_key(x) by {
        assert(par.contains_key(x));
        let i = choose|i: int| 0 <= i < b.len() && hash_of(#[trigger] b[i]) == x;
        assert(m.contains_key(hash_of(b[i])));
    }
}
pub proof fn lemma_walk(m: Map<[u8; 32], FileBlock>, b: Seq<FileBlock>, par: Map<[u8; 32], [u8; 32]>, d: int, v: Seq<FileBlock>, top: int, current: [u8; 32], x: FileBlock)
    requires
        parents(par, b), left_ok(m, b, par, d), d > 0, depth(par, current, d), walked(v, b, top, current), v.len() == top - d,
        m.contains_key(current), x == at_height(m[current], x.height), x.height == d - 1,
    ensures
        left_ok(m.remove(current), b, par, d - 1), depth(par, prev_of(x), d - 1), walked(v.push(x), b, top, prev_of(x)), hash_of(x) == current,
{
    let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == m[current] && hash_of(b[i]) == current;
    assert(par[hash_of(b[i])] == prev_of(b[i]));
    assert(at_height(b[i], x.height) == x);
    assert(among(x, b));
    let n = m.remove(current);
    assert forall|y: [u8; 32], e: int| 0 < e <= d - 1 && #[trigger] depth(par, y, e) implies n.contains_key(y) by { if y == current { lemma_depth_once(par, y, e, d); } }
    let w = v.push(x);
    assert forall|i: int| 0 <= i < w.len() implies among(#[trigger] w[i], b) && w[i].height == top - 1 - i by { if i < v.len() { assert(w[i] == v[i]); } }
    assert forall|i: int| 0 <= i < w.len() implies prev_of(#[trigger] w[i]) == (if i == w.len() - 1 { prev_of(x) } else { hash_of(w[i + 1]) }) by { if i < v.len() { assert(w[i] == v[i]); if i < v.len() - 1 { assert(w[i + 1] == v[i + 1]); } } }
}
pub proof fn lemma_longest(r: Seq<FileBlock>, v: Seq<FileBlock>, b: Seq<FileBlock>, par: Map<[u8; 32], [u8; 32]>)
    requires
        parents(par, b), walked(v, b, v.len() as int, zero()), r == v.reverse(),
        none_at(par, v.len() as int + 1),
    ensures is_longest(r, b),
{
    assert forall|i: int| 0 <= i < r.len() implies among(#[trigger] r[i], b) && r[i].height == i && prev_of(r[i]) == (if i == 0 { zero() } else { hash_of(r[i - 1]) }) by {
        let j = v.len() - 1 - i;
        assert(r[i] == v[j]);
        if i > 0 { assert(r[i - 1] == v[j + 1]); }
    }
    assert forall|c: Seq<FileBlock>| #[trigger] is_chain(c, b) implies c.len() <= r.len() by {
        lemma_chain_depth(par, c, b);
        if c.len() > r.len() { lemma_no_deeper(par, hash_of(c.last()), c.len() as int, r.len() as int + 1); }
    }
}
//@ impl FileBlock as BlockTrait
open spec fn s_header(&self) -> BlockHeader { self.header }
open spec fn s_height(&self) -> usize { self.height }
open spec fn s_txs(&self) -> Seq<Transaction> { file_txs(bytes_of(*self)) }
open spec fn s_ok(&self) -> bool {
    disk_readable(self.file_path@) && self.offset + self.length <= disk(self.file_path@).len() && block_ok(bytes_of(*self))
}
//@ fn FileBlock as BlockTrait::transactions
//@ loop 0
invariant
    it0.seq().len() == block_count(bytes_of(*self)), holds(it0.seq(), bytes_of(*self)), __vx_trace@ =~= it0.seq().take(it0.index() as int),
    it0.index() == it0.seq().len() ==> holds(__vx_trace@, bytes_of(*self)),
//@ at start
proof { axiom_file_size(self.file_path@); }
//@ at end
proof { lemma_file_txs(__vx_trace@, bytes_of(*self)); }
//@ fn BlockFileReader::find_longest_chain
//@ ret r
requires ids_ok(blocks@),
ensures is_longest(r@, blocks@),
//@ at start
broadcast use lemma_zero;
assert(blocks.len() == blocks@.len());
let ghost all = blocks@;
let ghost par = lemma_parents(all);
proof { axiom_key::<[u8; 32]>(); assert(depth(par, zero(), 0)); }
//@ loop 0
invariant
    it0.seq() == all, children(reverse_hashmap@, all.take(it0.index() as int)), index_ok(hashmap@, all.take(it0.index() as int)),
//@ at loop 0 start
let ghost k = it0.index() as int;
let ghost (m0, h0, x) = (reverse_hashmap@, hashmap@, block);
proof { axiom_key::<[u8; 32]>(); }
//@ at loop 0 end
proof {
    assert(all.take(k + 1) =~= all.take(k).push(x));
    let (q, m) = (prev_of(x), reverse_hashmap@);
    if m0.contains_key(q) { assert(m.contains_key(q)); assert(m =~= m0.insert(q, m[q])); assert(m[q]@ =~= m0[q]@.push(hash_of(x))); } else { assert(m =~= m0.insert(q, m[q])); assert(m[q]@ =~= seq![hash_of(x)]); }
    lemma_children(m0, reverse_hashmap@, all.take(k), x);
    lemma_index(h0, all.take(k), x);
}
//@ at loop 0 after
proof { assert(all.take(all.len() as int) =~= all); }
//@ at loop 1 before
proof { assert(heads@.len() == 1); assert forall|i: int| 0 <= i < 32 implies heads@[0]@[i] == 0 by {} lemma_zero(heads@[0]); assert(heads@ =~= seq![zero()]); assert(heads@[0] == zero()); }
//@ loop 1
invariant
    all == blocks@, parents(par, all), children(reverse_hashmap@, all), index_ok(hashmap@, all),
    heads@.len() > 0, level(heads@, par, height as int), height <= all.len() <= usize::MAX,
ensures
    none_at(par, height + 1),
decreases all.len() - height,
//@ at loop 1 start
proof { axiom_key::<[u8; 32]>(); }
//@ loop 2
invariant
    all == blocks@, parents(par, all), children(reverse_hashmap@, all),
    it2.seq().len() == heads@.len(), forall|i: int| 0 <= i < heads@.len() ==> *#[trigger] it2.seq()[i] == heads@[i],
    next_level(new_heads@, heads@, it2.index() as int, par),
//@ at loop 2 start
let ghost k2 = it2.index() as int;
let ghost n0 = new_heads@;
proof { axiom_key::<[u8; 32]>(); assert(*head == heads@[k2]); }
//@ loop 3
invariant
    it3.seq().len() == blocks@.len(), forall|i: int| 0 <= i < blocks@.len() ==> *#[trigger] it3.seq()[i] == blocks@[i],
    new_heads@ =~= n0 + blocks@.take(it3.index() as int),
//@ at loop 3 after
proof { assert(blocks@.take(blocks@.len() as int) =~= blocks@); }
//@ at loop 2 end
proof { lemma_next(new_heads@, n0, heads@, k2, par, reverse_hashmap@, all); }
//@ at loop 2 after
proof { lemma_level(new_heads@, heads@, par, height as int); }
//@ at loop 4 before
let ghost top = height as int;
proof { lemma_left(hashmap@, all, par, top); assert(heads@.contains(heads@[0])); }
//@ loop 4
invariant
    all == blocks@, parents(par, all), depth(par, current, height as int), left_ok(hashmap@, all, par, height as int),
    walked(blocks1@, all, top, current), blocks1@.len() == top - height,
ensures
    current == zero(),
decreases height,
//@ at loop 4 start
let ghost (c0, m0, v0) = (current, hashmap@, blocks1@);
proof { axiom_key::<[u8; 32]>(); assert(height > 0); assert(hashmap@.contains_key(current)); }
//@ at loop 4 end
proof { lemma_walk(m0, all, par, height + 1, v0, top, c0, blocks1@.last()); }
//@ at loop 4 after
let ghost v = blocks1@;
proof { lemma_depth_once(par, current, 0, height as int); }
//@ at end
proof { lemma_longest(blocks1@, v, all, par); }
//@ fn BlockFileReader::new
//@ ret r
ensures r.path@ == path@,
//@ fn BlockFileReader::file_names
//@ ret r
requires dir_readable(self.path@),
ensures names_of(self.path@, r@),
//@ at start
let ghost dir = self.path@;
let ghost list = file_list(dir);
proof { axiom_blk_re(""@); axiom_names(dir); }
//@ loop 0
invariant
    dir == self.path@, list == file_list(dir), it0.seq().len() == list.len(), regex.pattern() == "^blk[0-9]{5}\\.dat$"@,
    forall|i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i]) is Ok && it0.seq()[i]->Ok_0.readable() && it0.seq()[i]->Ok_0.name() == list[i],
    views(__vx_v1@) =~= picks(list, it0.index() as int),
    it0.index() == it0.seq().len() ==> names_of(dir, __vx_v1@),
//@ at loop 0 start
let ghost k = it0.index() as int;
let ghost v0 = __vx_v1@;
proof { axiom_blk_re(list[k]); }
//@ at loop 0 end
proof {
    if is_blk_name(list[k]) { assert(views(__vx_v1@) =~= views(v0).push(list[k])); }
    lemma_picks(dir, __vx_v1@);
}
//@ at loop 0 before
proof { lemma_picks(dir, __vx_v1@); }
//@ at let file_names
let ghost found = file_names@;
//@ at end
proof { lemma_reordered(dir, found, file_names@); }
//@ fn BlockFileReader::scan_block_file
//@ ret r
requires
    disk_readable(path_join(self.path@, file_name@)), file_ok(disk(path_join(self.path@, file_name@)), 0) || may_panic(),
ensures
    file_ok(disk(path_join(self.path@, file_name@)), 0),
    is_listing(r@, path_join(self.path@, file_name@), recs(disk(path_join(self.path@, file_name@)), 0)),
//@ at start
let ghost path = path_join(self.path@, file_name@);
let ghost d = disk(path);
let ghost mut done = Seq::<int>::empty();
proof { axiom_file_size(path); }
//@ loop 0
invariant_except_break
    file.at() == offset,
    file_ok(d, 0) == file_ok(d, offset as int), done + recs(d, offset as int) =~= recs(d, 0),
invariant
    d == disk(path), disk_readable(path), file.path() == path, file_path@ == path, d.len() <= 0x4000_0000_0000_0000,
    file_ok(d, 0) || may_panic(), is_listing(blocks@, path, done),
    offset <= 0x4000_0000_0000_0000 + 0x1_0000_0008,
ensures
    file_ok(d, 0), done =~= recs(d, 0),
decreases if offset < d.len() { d.len() - offset } else { 0 },
//@ at loop 0 start
let ghost p = offset as int;
let ghost b0 = blocks@;
//@ at let bytes
proof { lemma_at_record(buffer@, d, p, bytes as int); }
//@ at loop 0 end
proof {
    done = done.push(p);
    lemma_recs(d, p);
}
//@ fn BlockFileReader::scan_block_files
//@ ret r
requires
    dir_readable(self.path@), threads <= 1 ==> may_panic() || files_ok(self.path@), threads > 1 ==> files_ok(self.path@),
    files_readable(self.path@),
ensures
    files_ok(self.path@), all_found(self.path@, r@),
//@ at let file_names
let ghost names = file_names@;
let ghost (src, dir) = (file_names, self.path@);
proof { assert forall|i: int| 0 <= i < names.len() implies is_blk_file(dir, (#[trigger] names[i])@) by {} }
//@ closure 0 r: Vec<FileBlock>
requires can_scan(&this, &file_name),
ensures scanned(&this, &file_name, &r),
//@ at let thread_pool
let ghost (ins, outs) = choose|ins: Seq<String>, outs: Seq<Vec<FileBlock>>| #[trigger] src.may(ins) && #[trigger] results(__vx_c0, ins, outs) && shuffled(outs, thread_pool.rest());
let ghost parts = thread_pool.rest();
let ghost perm = choose|p: Seq<int>| #[trigger] permutes(p, outs, parts);
let ghost renamed = Seq::new(perm.len(), |j: int| names[perm[j]]);
proof {
    assert(parts.take(0) =~= Seq::empty());
    lemma_renamed(dir, names, perm, renamed, outs, parts);
    assert forall|i: int| 0 <= i < parts.len() implies is_listing((#[trigger] parts[i])@, path_join(dir, renamed[i]@), recs(disk(path_join(dir, renamed[i]@)), 0)) by {
        assert(__vx_c0.ensures((ins[perm[i]],), outs[perm[i]]));
    }
    assert(found_in(dir, renamed, parts));
}
//@ loop 0
invariant
    it0.seq() == parts, __vx_v1@ =~= cat(parts.take(it0.index() as int)),
    it0.index() == it0.seq().len() ==> __vx_v1@ == cat(parts),
//@ at loop 0 start
proof { lemma_cat(parts, it0.index() as int); }
//@ at loop 0 end
proof { assert(parts.take(parts.len() as int) =~= parts); }
//@ loop 1
invariant
    it1.seq() == names, dir == self.path@, names_of(dir, names), files_readable(dir), may_panic() || files_ok(dir),
    parts1.len() == it1.index(), __vx_v3@ =~= cat(parts1),
    forall|i: int| 0 <= i < parts1.len() ==> in_file(dir, names[i]@, (#[trigger] parts1[i])@),
//@ at loop 1 before
let ghost mut parts1: Seq<Vec<FileBlock>> = Seq::empty();
//@ at loop 1 start
proof { assert(is_blk_file(dir, names[it1.index() as int]@)); }
//@ at loop 1 end
proof { let ghost old1 = parts1; parts1 = parts1.push(__vx_x4); assert(parts1.take(parts1.len() - 1) =~= old1); assert(parts1.last() == __vx_x4);
    assert forall|i: int| 0 <= i < parts1.len() implies in_file(dir, names[i]@, (#[trigger] parts1[i])@) by { if i < old1.len() { assert(parts1[i] == old1[i]); assert(in_file(dir, names[i]@, old1[i]@)); } }
    lemma_cat(parts1, parts1.len() - 1); assert(parts1.take(parts1.len() as int) =~= parts1); assert(parts1.take(parts1.len() - 1) =~= parts1.drop_last()); }
//@ at loop 1 after
proof {
    assert(found_in(dir, names, parts1));
    assert forall|t: Seq<char>| #[trigger] is_blk_file(dir, t) implies file_ok(disk(path_join(dir, t)), 0) by {
        let i = choose|i: int| 0 <= i < names.len() && (#[trigger] names[i])@ == t;
        assert(in_file(dir, names[i]@, parts1[i]@));
    }
}
//@ fn BlockFileReader::blocks
//@ ret r
requires
    dir_readable(self.path@), files_readable(self.path@), files_ok(self.path@),
    forall|b: Seq<FileBlock>| #[trigger] all_found(self.path@, b) ==> ids_ok(b),
ensures
    exists|b: Seq<FileBlock>| #[trigger] all_found(self.path@, b) && is_longest(r@, b),
