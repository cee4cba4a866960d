//@ file transaction.rs
//@ top
use crate::hashing_buffer_reader::*;
broadcast use crate::shim::shim_axioms;

// ---- the wire format: what is at position p of s, and where it ends -------------------------------------------
/// previous transaction id (32), index (4), counted script, sequence (4)
pub open spec fn in_ok(s: Seq<u8>, p: int) -> bool { 0 <= p && p + 36 <= s.len() && vb_ok(s, p + 36) && vb_end(s, p + 36) + 4 <= s.len() }
pub open spec fn in_end(s: Seq<u8>, p: int) -> int { vb_end(s, p + 36) + 4 }
pub open spec fn in_at(s: Seq<u8>, p: int) -> TransactionOutput { TransactionOutput { hash: arr::<32>(cut(s, p, p + 32)), index: le_at(s, p + 32, 4) as u32 } }
/// value (8), counted script
pub open spec fn out_ok(s: Seq<u8>, p: int) -> bool { 0 <= p && p + 8 <= s.len() && vb_ok(s, p + 8) }
pub open spec fn out_end(s: Seq<u8>, p: int) -> int { vb_end(s, p + 8) }
pub open spec fn out_at(s: Seq<u8>, p: int) -> (u64, Seq<u8>) { (le_at(s, p, 8) as u64, vb(s, p + 8)) }

pub open spec fn ins_end(s: Seq<u8>, p: int, n: int) -> int decreases n { if n <= 0 { p } else { in_end(s, ins_end(s, p, n - 1)) } }
pub open spec fn ins_ok(s: Seq<u8>, p: int, n: int) -> bool decreases n { if n <= 0 { n == 0 && 0 <= p <= s.len() } else { ins_ok(s, p, n - 1) && in_ok(s, ins_end(s, p, n - 1)) } }
pub open spec fn ins(s: Seq<u8>, p: int, n: int) -> Seq<TransactionOutput> decreases n { if n <= 0 { Seq::empty() } else { ins(s, p, n - 1).push(in_at(s, ins_end(s, p, n - 1))) } }

pub open spec fn outs_end(s: Seq<u8>, p: int, n: int) -> int decreases n { if n <= 0 { p } else { out_end(s, outs_end(s, p, n - 1)) } }
pub open spec fn outs_ok(s: Seq<u8>, p: int, n: int) -> bool decreases n { if n <= 0 { n == 0 && 0 <= p <= s.len() } else { outs_ok(s, p, n - 1) && out_ok(s, outs_end(s, p, n - 1)) } }
pub open spec fn outs(s: Seq<u8>, p: int, n: int) -> Seq<(u64, Seq<u8>)> decreases n { if n <= 0 { Seq::empty() } else { outs(s, p, n - 1).push(out_at(s, outs_end(s, p, n - 1))) } }

/// n counted byte strings: the witness of one input
pub open spec fn items_end(s: Seq<u8>, p: int, n: int) -> int decreases n { if n <= 0 { p } else { vb_end(s, items_end(s, p, n - 1)) } }
pub open spec fn items_ok(s: Seq<u8>, p: int, n: int) -> bool decreases n { if n <= 0 { n == 0 && 0 <= p <= s.len() } else { items_ok(s, p, n - 1) && vb_ok(s, items_end(s, p, n - 1)) } }
pub open spec fn wit_ok(s: Seq<u8>, p: int) -> bool { vi_ok(s, p) && items_ok(s, vi_end(s, p), vi(s, p) as int) }
pub open spec fn wit_end(s: Seq<u8>, p: int) -> int { items_end(s, vi_end(s, p), vi(s, p) as int) }
pub open spec fn wits_end(s: Seq<u8>, p: int, n: int) -> int decreases n { if n <= 0 { p } else { wit_end(s, wits_end(s, p, n - 1)) } }
pub open spec fn wits_ok(s: Seq<u8>, p: int, n: int) -> bool decreases n { if n <= 0 { n == 0 && 0 <= p <= s.len() } else { wits_ok(s, p, n - 1) && wit_ok(s, wits_end(s, p, n - 1)) } }

// ---- a transaction at p --------------------------------------------------------------------------------------------
/// marker and flag, present when the byte after the version is zero
pub open spec fn has_marker(s: Seq<u8>, p: int) -> bool { s[p + 4] == 0 }
pub open spec fn flag(s: Seq<u8>, p: int) -> u8 { if has_marker(s, p) { s[p + 5] } else { 0u8 } }
pub open spec fn has_wits(s: Seq<u8>, p: int) -> bool { flag(s, p) & 0x01u8 != 0 }
/// position of the input count
pub open spec fn body(s: Seq<u8>, p: int) -> int { if has_marker(s, p) { p + 6 } else { p + 4 } }
pub open spec fn n_ins(s: Seq<u8>, p: int) -> int { vi(s, body(s, p)) as int }
pub open spec fn tx_ins_at(s: Seq<u8>, p: int) -> int { vi_end(s, body(s, p)) }
pub open spec fn tx_outs_count_at(s: Seq<u8>, p: int) -> int { ins_end(s, tx_ins_at(s, p), n_ins(s, p)) }
pub open spec fn n_outs(s: Seq<u8>, p: int) -> int { vi(s, tx_outs_count_at(s, p)) as int }
pub open spec fn tx_outs_at(s: Seq<u8>, p: int) -> int { vi_end(s, tx_outs_count_at(s, p)) }
/// end of the outputs
pub open spec fn tx_wits_at(s: Seq<u8>, p: int) -> int { outs_end(s, tx_outs_at(s, p), n_outs(s, p)) }
pub open spec fn tx_lock_at(s: Seq<u8>, p: int) -> int { if has_wits(s, p) { wits_end(s, tx_wits_at(s, p), n_ins(s, p)) } else { tx_wits_at(s, p) } }
pub open spec fn tx_end(s: Seq<u8>, p: int) -> int { tx_lock_at(s, p) + 4 }
/// a well-formed transaction starts at p
pub open spec fn tx_ok(s: Seq<u8>, p: int) -> bool {
    &&& 0 <= p && p + 6 <= s.len()
    &&& vi_ok(s, body(s, p)) && ins_ok(s, tx_ins_at(s, p), n_ins(s, p))
    &&& vi_ok(s, tx_outs_count_at(s, p)) && outs_ok(s, tx_outs_at(s, p), n_outs(s, p))
    &&& has_wits(s, p) ==> wits_ok(s, tx_wits_at(s, p), n_ins(s, p))
    &&& tx_end(s, p) <= s.len()
}
pub open spec fn tx_ins(s: Seq<u8>, p: int) -> Seq<TransactionOutput> { ins(s, tx_ins_at(s, p), n_ins(s, p)) }
pub open spec fn tx_outs(s: Seq<u8>, p: int) -> Seq<(u64, Seq<u8>)> { outs(s, tx_outs_at(s, p), n_outs(s, p)) }
/// the witness-free serialization: version, inputs and outputs with their counts, lock time
pub open spec fn stripped(s: Seq<u8>, p: int) -> Seq<u8> { (cut(s, p, p + 4) + cut(s, body(s, p), tx_wits_at(s, p))) + cut(s, tx_lock_at(s, p), tx_end(s, p)) }
pub open spec fn outs_view(v: Seq<Output>) -> Seq<(u64, Seq<u8>)> { v.map_values(|o: Output| (o.value, o.script@)) }
/// `t` is the transaction at p
pub open spec fn is_tx(t: Transaction, s: Seq<u8>, p: int) -> bool {
    &&& t.hash@ == sha256d(stripped(s, p))
    &&& t.inputs@ == tx_ins(s, p)
    &&& outs_view(t.outputs@) == tx_outs(s, p)
}

pub proof fn lemma_ins(s: Seq<u8>, p: int, n: int, k: int)
    requires ins_ok(s, p, n), 0 <= k <= n,
    ensures ins_ok(s, p, k), k < n ==> in_ok(s, ins_end(s, p, k)), p <= ins_end(s, p, k) <= ins_end(s, p, n) <= s.len(), ins_end(s, p, k) >= p + k,
    decreases n,
{ if k < n { lemma_ins(s, p, n - 1, k); } else if n > 0 { lemma_ins(s, p, n - 1, k - 1); } }
pub proof fn lemma_outs(s: Seq<u8>, p: int, n: int, k: int)
    requires outs_ok(s, p, n), 0 <= k <= n,
    ensures outs_ok(s, p, k), k < n ==> out_ok(s, outs_end(s, p, k)), p <= outs_end(s, p, k) <= outs_end(s, p, n) <= s.len(), outs_end(s, p, k) >= p + k,
    decreases n,
{ if k < n { lemma_outs(s, p, n - 1, k); } else if n > 0 { lemma_outs(s, p, n - 1, k - 1); } }
pub proof fn lemma_items(s: Seq<u8>, p: int, n: int, k: int)
    requires items_ok(s, p, n), 0 <= k <= n,
    ensures items_ok(s, p, k), k < n ==> vb_ok(s, items_end(s, p, k)), p <= items_end(s, p, k) <= items_end(s, p, n) <= s.len(),
    decreases n,
{ if k < n { lemma_items(s, p, n - 1, k); } else if n > 0 { lemma_items(s, p, n - 1, k - 1); } }
pub proof fn lemma_wits(s: Seq<u8>, p: int, n: int, k: int)
    requires wits_ok(s, p, n), 0 <= k <= n,
    ensures wits_ok(s, p, k), k < n ==> wit_ok(s, wits_end(s, p, k)), p <= wits_end(s, p, k) <= wits_end(s, p, n) <= s.len(),
    decreases n,
{
    if k < n { lemma_wits(s, p, n - 1, k); } else if n > 0 { lemma_wits(s, p, n - 1, k - 1); }
    if n > 0 { let q = wits_end(s, p, n - 1); lemma_wits(s, p, n - 1, n - 1); lemma_items(s, vi_end(s, q), vi(s, q) as int, vi(s, q) as int); }
}

// ---- C07: what is read depends on the transaction's own bytes only --------------------------------------------------
/// the n bytes of s at p are those of t at q
pub open spec fn agree(s: Seq<u8>, p: int, t: Seq<u8>, q: int, n: int) -> bool {
    0 <= p && 0 <= q && 0 <= n && p + n <= s.len() && q + n <= t.len() && forall|i: int| p <= i < p + n ==> #[trigger] s[i] == t[q + (i - p)]
}
pub proof fn lemma_agree_cut(s: Seq<u8>, p: int, t: Seq<u8>, q: int, n: int, a: int, b: int)
    requires agree(s, p, t, q, n), p <= a <= b <= p + n,
    ensures cut(s, a, b) == cut(t, a - p + q, b - p + q), agree(s, a, t, a - p + q, b - a),
{
    assert forall|i: int| a <= i < b implies #[trigger] s[i] == t[(a - p + q) + (i - a)] by { assert(s[i] == t[q + (i - p)]); }
    assert(cut(s, a, b) =~= cut(t, a - p + q, b - p + q));
}
pub proof fn lemma_vi_local(s: Seq<u8>, p: int, t: Seq<u8>, q: int, n: int)
    requires agree(s, p, t, q, n), vi_ok(s, p), vi_end(s, p) <= p + n,
    ensures vi_ok(t, q), vi_end(t, q) - q == vi_end(s, p) - p, vi(t, q) == vi(s, p),
{
    assert(s[p] == t[q + (p - p)]);
    let e = vi_end(s, p);
    lemma_agree_cut(s, p, t, q, n, p + 1, e);
}
pub proof fn lemma_vb_local(s: Seq<u8>, p: int, t: Seq<u8>, q: int, n: int)
    requires agree(s, p, t, q, n), vb_ok(s, p), vb_end(s, p) <= p + n,
    ensures vb_ok(t, q), vb_end(t, q) - q == vb_end(s, p) - p, vb(t, q) == vb(s, p),
{
    lemma_vi_local(s, p, t, q, n);
    lemma_agree_cut(s, p, t, q, n, vi_end(s, p), vb_end(s, p));
}
pub proof fn lemma_in_local(s: Seq<u8>, p: int, t: Seq<u8>, q: int, n: int)
    requires agree(s, p, t, q, n), in_ok(s, p), in_end(s, p) <= p + n,
    ensures in_ok(t, q), in_end(t, q) - q == in_end(s, p) - p, in_at(t, q) == in_at(s, p),
{
    lemma_agree_cut(s, p, t, q, n, p, p + 32);
    lemma_agree_cut(s, p, t, q, n, p + 32, p + 36);
    lemma_agree_cut(s, p, t, q, n, p + 36, p + n);
    lemma_vb_local(s, p + 36, t, q + 36, n - 36);
}
pub proof fn lemma_out_local(s: Seq<u8>, p: int, t: Seq<u8>, q: int, n: int)
    requires agree(s, p, t, q, n), out_ok(s, p), out_end(s, p) <= p + n,
    ensures out_ok(t, q), out_end(t, q) - q == out_end(s, p) - p, out_at(t, q) == out_at(s, p),
{
    lemma_agree_cut(s, p, t, q, n, p, p + 8);
    lemma_agree_cut(s, p, t, q, n, p + 8, p + n);
    lemma_vb_local(s, p + 8, t, q + 8, n - 8);
}
pub proof fn lemma_ins_local(s: Seq<u8>, p: int, t: Seq<u8>, q: int, n: int, k: int)
    requires agree(s, p, t, q, n), ins_ok(s, p, k), ins_end(s, p, k) <= p + n,
    ensures ins_ok(t, q, k), ins_end(t, q, k) - q == ins_end(s, p, k) - p, ins(t, q, k) == ins(s, p, k),
    decreases k,
{
    if k > 0 {
        lemma_ins(s, p, k, k - 1);
        lemma_ins_local(s, p, t, q, n, k - 1);
        let a = ins_end(s, p, k - 1);
        lemma_agree_cut(s, p, t, q, n, a, p + n);
        lemma_in_local(s, a, t, a - p + q, n - (a - p));
    }
}
pub proof fn lemma_outs_local(s: Seq<u8>, p: int, t: Seq<u8>, q: int, n: int, k: int)
    requires agree(s, p, t, q, n), outs_ok(s, p, k), outs_end(s, p, k) <= p + n,
    ensures outs_ok(t, q, k), outs_end(t, q, k) - q == outs_end(s, p, k) - p, outs(t, q, k) == outs(s, p, k),
    decreases k,
{
    if k > 0 {
        lemma_outs(s, p, k, k - 1);
        lemma_outs_local(s, p, t, q, n, k - 1);
        let a = outs_end(s, p, k - 1);
        lemma_agree_cut(s, p, t, q, n, a, p + n);
        lemma_out_local(s, a, t, a - p + q, n - (a - p));
    }
}
pub proof fn lemma_items_local(s: Seq<u8>, p: int, t: Seq<u8>, q: int, n: int, k: int)
    requires agree(s, p, t, q, n), items_ok(s, p, k), items_end(s, p, k) <= p + n,
    ensures items_ok(t, q, k), items_end(t, q, k) - q == items_end(s, p, k) - p,
    decreases k,
{
    if k > 0 {
        lemma_items(s, p, k, k - 1);
        lemma_items_local(s, p, t, q, n, k - 1);
        let a = items_end(s, p, k - 1);
        lemma_agree_cut(s, p, t, q, n, a, p + n);
        lemma_vb_local(s, a, t, a - p + q, n - (a - p));
    }
}
pub proof fn lemma_wits_local(s: Seq<u8>, p: int, t: Seq<u8>, q: int, n: int, k: int)
    requires agree(s, p, t, q, n), wits_ok(s, p, k), wits_end(s, p, k) <= p + n,
    ensures wits_ok(t, q, k), wits_end(t, q, k) - q == wits_end(s, p, k) - p,
    decreases k,
{
    if k > 0 {
        lemma_wits(s, p, k, k - 1);
        lemma_wits_local(s, p, t, q, n, k - 1);
        let a = wits_end(s, p, k - 1);
        let b = a - p + q;
        lemma_agree_cut(s, p, t, q, n, a, p + n);
        let c = vi(s, a) as int;
        lemma_items(s, vi_end(s, a), c, c);
        lemma_items(s, vi_end(s, a), c, 0);
        lemma_vi_local(s, a, t, b, n - (a - p));
        let e = vi_end(s, a);
        lemma_agree_cut(s, p, t, q, n, e, p + n);
        lemma_items_local(s, e, t, e - p + q, n - (e - p), c);
    }
}
pub proof fn lemma_tx_bounds(s: Seq<u8>, p: int)
    requires tx_ok(s, p),
    ensures p + 4 <= body(s, p) < tx_ins_at(s, p) <= tx_outs_count_at(s, p) < tx_outs_at(s, p) <= tx_wits_at(s, p) <= tx_lock_at(s, p), tx_end(s, p) == tx_lock_at(s, p) + 4, tx_end(s, p) <= s.len(),
        tx_lock_at(s, p) >= p + 6,
{
    lemma_ins(s, tx_ins_at(s, p), n_ins(s, p), n_ins(s, p));
    lemma_outs(s, tx_outs_at(s, p), n_outs(s, p), n_outs(s, p));
    if has_wits(s, p) { lemma_wits(s, tx_wits_at(s, p), n_ins(s, p), n_ins(s, p)); }
}
/// the bytes from the input count to the end of the outputs, elsewhere
pub open spec fn same_body(s: Seq<u8>, p: int, t: Seq<u8>, q: int) -> bool {
    let d = body(t, q) - body(s, p);
    &&& n_ins(t, q) == n_ins(s, p) && tx_ins_at(t, q) == tx_ins_at(s, p) + d && tx_ins(t, q) == tx_ins(s, p)
    &&& tx_outs_count_at(t, q) == tx_outs_count_at(s, p) + d && tx_outs_at(t, q) == tx_outs_at(s, p) + d && n_outs(t, q) == n_outs(s, p)
    &&& tx_outs(t, q) == tx_outs(s, p) && tx_wits_at(t, q) == tx_wits_at(s, p) + d
    &&& vi_ok(t, body(t, q)) && ins_ok(t, tx_ins_at(t, q), n_ins(t, q)) && vi_ok(t, tx_outs_count_at(t, q)) && outs_ok(t, tx_outs_at(t, q), n_outs(t, q))
}
#[verifier::spinoff_prover]
pub proof fn lemma_body_ins(s: Seq<u8>, b: int, t: Seq<u8>, c: int, n: int)
    requires vi_ok(s, b), ins_ok(s, vi_end(s, b), vi(s, b) as int), ins_end(s, vi_end(s, b), vi(s, b) as int) <= b + n, agree(s, b, t, c, n),
    ensures
        vi_ok(t, c), vi(t, c) == vi(s, b), vi_end(t, c) == vi_end(s, b) - b + c, ins_ok(t, vi_end(t, c), vi(s, b) as int),
        ins_end(t, vi_end(t, c), vi(s, b) as int) == ins_end(s, vi_end(s, b), vi(s, b) as int) - b + c,
        ins(t, vi_end(t, c), vi(s, b) as int) == ins(s, vi_end(s, b), vi(s, b) as int),
{
    lemma_ins(s, vi_end(s, b), vi(s, b) as int, vi(s, b) as int);
    lemma_vi_local(s, b, t, c, n);
    let i = vi_end(s, b);
    lemma_agree_cut(s, b, t, c, n, i, b + n);
    lemma_ins_local(s, i, t, i - b + c, n - (i - b), vi(s, b) as int);
}
#[verifier::spinoff_prover]
pub proof fn lemma_body_outs(s: Seq<u8>, b: int, t: Seq<u8>, c: int, n: int)
    requires vi_ok(s, b), outs_ok(s, vi_end(s, b), vi(s, b) as int), outs_end(s, vi_end(s, b), vi(s, b) as int) <= b + n, agree(s, b, t, c, n),
    ensures
        vi_ok(t, c), vi(t, c) == vi(s, b), vi_end(t, c) == vi_end(s, b) - b + c, outs_ok(t, vi_end(t, c), vi(s, b) as int),
        outs_end(t, vi_end(t, c), vi(s, b) as int) == outs_end(s, vi_end(s, b), vi(s, b) as int) - b + c,
        outs(t, vi_end(t, c), vi(s, b) as int) == outs(s, vi_end(s, b), vi(s, b) as int),
{
    lemma_outs(s, vi_end(s, b), vi(s, b) as int, vi(s, b) as int);
    lemma_vi_local(s, b, t, c, n);
    let i = vi_end(s, b);
    lemma_agree_cut(s, b, t, c, n, i, b + n);
    lemma_outs_local(s, i, t, i - b + c, n - (i - b), vi(s, b) as int);
}
#[verifier::spinoff_prover]
pub proof fn lemma_body_local(s: Seq<u8>, p: int, t: Seq<u8>, q: int)
    requires tx_ok(s, p), agree(s, body(s, p), t, body(t, q), tx_wits_at(s, p) - body(s, p)),
    ensures same_body(s, p, t, q),
{
    lemma_tx_bounds(s, p);
    let (b, c) = (body(s, p), body(t, q));
    let n = tx_wits_at(s, p) - b;
    lemma_body_ins(s, b, t, c, n);
    let oc = tx_outs_count_at(s, p);
    assert(tx_outs_count_at(t, q) == oc - b + c);
    lemma_agree_cut(s, b, t, c, n, oc, b + n);
    lemma_body_outs(s, oc, t, oc - b + c, n - (oc - b));
}
/// THEOREM (C07): the same bytes at any place of any buffer are the same transaction, whatever follows them
#[verifier::spinoff_prover]
pub proof fn theorem_tx_local(s: Seq<u8>, p: int, t: Seq<u8>, q: int)
    requires tx_ok(s, p), agree(s, p, t, q, tx_end(s, p) - p),
    ensures tx_ok(t, q), tx_end(t, q) - q == tx_end(s, p) - p, tx_ins(t, q) == tx_ins(s, p), tx_outs(t, q) == tx_outs(s, p), stripped(t, q) == stripped(s, p),
{
    hide(ins); hide(ins_ok); hide(ins_end); hide(outs); hide(outs_ok); hide(outs_end); hide(wits_ok); hide(wits_end); hide(vi); hide(vi_ok); hide(vi_end);
    lemma_tx_bounds(s, p);
    let n = tx_end(s, p) - p;
    assert(s[p + 4] == t[q + ((p + 4) - p)]);
    assert(s[p + 5] == t[q + ((p + 5) - p)]);
    let (b, w, l) = (body(s, p), tx_wits_at(s, p), tx_lock_at(s, p));
    lemma_agree_cut(s, p, t, q, n, b, w);
    lemma_body_local(s, p, t, q);
    lemma_agree_cut(s, p, t, q, n, w, p + n);
    if has_wits(s, p) { lemma_wits_local(s, w, t, w - p + q, n - (w - p), n_ins(s, p)); }
    lemma_agree_cut(s, p, t, q, n, p, p + 4);
    lemma_agree_cut(s, p, t, q, n, l, p + n);
}
/// THEOREM (C07): a transaction with witness data and the same one without read as the same inputs, outputs and id
#[verifier::spinoff_prover]
pub proof fn theorem_witness_free(s: Seq<u8>, p: int)
    requires tx_ok(s, p), n_ins(s, p) > 0,
    ensures
        tx_ok(stripped(s, p), 0), tx_end(stripped(s, p), 0) == stripped(s, p).len(), !has_marker(stripped(s, p), 0),
        tx_ins(stripped(s, p), 0) == tx_ins(s, p), tx_outs(stripped(s, p), 0) == tx_outs(s, p), stripped(stripped(s, p), 0) == stripped(s, p),
{
    hide(ins); hide(ins_ok); hide(ins_end); hide(outs); hide(outs_ok); hide(outs_end); hide(wits_ok); hide(wits_end); hide(vi); hide(vi_ok); hide(vi_end);
    lemma_tx_bounds(s, p);
    let t = stripped(s, p);
    let (b, w) = (body(s, p), tx_wits_at(s, p));
    let n = w - b;
    lemma_count_byte(s, b);
    lemma_stripped(s, p);
    assert(s[b] == t[4 + (b - b)]);
    assert(!has_marker(t, 0));
    assert(0u8 & 0x01u8 == 0) by(bit_vector);
    lemma_body_local(s, p, t, 0);
    assert(stripped(t, 0) =~= t);
}
pub proof fn lemma_stripped(s: Seq<u8>, p: int)
    requires tx_ok(s, p),
    ensures agree(s, body(s, p), stripped(s, p), 4, tx_wits_at(s, p) - body(s, p)), stripped(s, p).len() == 4 + (tx_wits_at(s, p) - body(s, p)) + 4,
{
    hide(ins); hide(ins_ok); hide(ins_end); hide(outs); hide(outs_ok); hide(outs_end); hide(wits_ok); hide(wits_end); hide(vi); hide(vi_ok); hide(vi_end);
    lemma_tx_bounds(s, p);
    let t = stripped(s, p);
    let (b, w) = (body(s, p), tx_wits_at(s, p));
    let n = w - b;
    assert forall|j: int| b <= j < b + n implies #[trigger] s[j] == t[4 + (j - b)] by {}
}
pub proof fn lemma_count_byte(s: Seq<u8>, b: int) requires vi_ok(s, b), vi(s, b) > 0, ensures s[b] != 0 {}
//@ fn Transaction::from_slice
//@ ret r
requires tx_ok(buffer@, 0),
ensures is_tx(r, buffer@, 0),
//@ fn Transaction::from_reader
//@ ret r
requires old(reader).wf(), tx_ok(old(reader).data(), old(reader).pos()),
ensures
    is_tx(r, old(reader).data(), old(reader).pos()),
    HashingBufferReader::moved(*old(reader), *final(reader), tx_end(old(reader).data(), old(reader).pos())),
//@ at start
broadcast use lemma_join;
let ghost s = reader.data();
let ghost p = reader.pos();
let ghost head = Seq::<u8>::empty() + cut(s, p, p + 4);
let ghost b = body(s, p);
proof {
    lemma_ins(s, tx_ins_at(s, p), n_ins(s, p), n_ins(s, p));
    lemma_outs(s, tx_outs_at(s, p), n_outs(s, p), n_outs(s, p));
    if has_wits(s, p) { lemma_wits(s, tx_wits_at(s, p), n_ins(s, p), n_ins(s, p)); }
    assert(0u8 & 0x01u8 == 0) by(bit_vector);
}
//@ loop 0
invariant
    reader.data() == s, tx_ok(s, p), reader.wf(), b == body(s, p), 0 <= p <= b,
    count_inputs == n_ins(s, p), it0.seq().len() == count_inputs,
    reader.pos() == ins_end(s, tx_ins_at(s, p), it0.index() as int), b <= reader.pos(),
    hasher.fed() == head + cut(s, b, reader.pos()),
    inputs@ == ins(s, tx_ins_at(s, p), it0.index() as int),
//@ at loop 0 start
broadcast use lemma_join;
proof { lemma_ins(s, tx_ins_at(s, p), n_ins(s, p), it0.index() as int); lemma_ins(s, tx_ins_at(s, p), n_ins(s, p), it0.index() + 1); }
//@ loop 1
invariant
    reader.data() == s, tx_ok(s, p), reader.wf(), b == body(s, p), 0 <= p <= b,
    count_outputs == n_outs(s, p), it1.seq().len() == count_outputs,
    reader.pos() == outs_end(s, tx_outs_at(s, p), it1.index() as int), b <= reader.pos(),
    hasher.fed() == head + cut(s, b, reader.pos()),
    outs_view(outputs@) == outs(s, tx_outs_at(s, p), it1.index() as int),
//@ at loop 1 start
broadcast use lemma_join;
let ghost o0 = outputs@;
proof { lemma_outs(s, tx_outs_at(s, p), n_outs(s, p), it1.index() as int); lemma_outs(s, tx_outs_at(s, p), n_outs(s, p), it1.index() + 1); }
//@ at loop 1 end
proof { assert(outs_view(outputs@) =~= outs_view(o0).push((outputs@.last().value, outputs@.last().script@))); }
//@ loop 2
invariant
    reader.data() == s, tx_ok(s, p), has_wits(s, p), reader.wf(),
    count_inputs == n_ins(s, p), it2.seq().len() == count_inputs,
    reader.pos() == wits_end(s, tx_wits_at(s, p), it2.index() as int),
//@ at loop 2 start
proof { lemma_wits(s, tx_wits_at(s, p), n_ins(s, p), it2.index() as int); }
let ghost w = reader.pos();
//@ loop 3
invariant
    reader.data() == s, wit_ok(s, w), reader.wf(),
    count_witnesses == vi(s, w), it3.seq().len() == count_witnesses,
    reader.pos() == items_end(s, vi_end(s, w), it3.index() as int),
//@ at loop 3 start
proof { lemma_items(s, vi_end(s, w), vi(s, w) as int, it3.index() as int); }
//@ at end
proof {
    assert(head =~= cut(s, p, p + 4));
}
