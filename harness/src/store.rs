use crate::chain::*;
use crate::core::*;
use crate::must;
use crate::wire::*;
use bitcoin_indexer::block::Block;
use bitcoin_indexer::buffer_writer::BufferWriter;
use bitcoin_indexer::logger::Logger;
use bitcoin_indexer::store::*;
use std::cell::OnceCell;
use std::collections::BTreeMap;

/// what a reader of the store gets for an address
fn listed<T: ReadonlyTransactionStoreBackendTrait>(s: &T, a: &Addr) -> Vec<(Out, u64)> {
    let mut v = vec![];
    s.iterate_transaction_outputs(&repo_addr(a), |o, x| v.push(((o.hash, o.index), x)));
    v.sort();
    v
}
fn show(o: &Out) -> String {
    format!("{}:{}", hx(&o.0), o.1)
}
pub fn check_listing<T: ReadonlyTransactionStoreBackendTrait>(s: &T, u: &Utxos, addrs: &[Addr], what: &str) -> Result<(), String> {
    for a in addrs {
        let got = listed(s, a);
        let want: Vec<(Out, u64)> = by_addr(u, a).into_iter().collect();
        must!(got == want, "{}: address {:?} lists {:?}, expected {:?}", what, a, got.iter().map(|x| (show(&x.0), x.1)).collect::<Vec<_>>(), want.iter().map(|x| (show(&x.0), x.1)).collect::<Vec<_>>());
        let sum: u128 = want.iter().map(|x| x.1 as u128).sum();
        if sum <= u64::MAX as u128 {
            let b = s.balance(&repo_addr(a));
            must!(b as u128 == sum, "{}: balance of {:?} is {}, expected {}", what, a, b, sum);
        }
    }
    Ok(())
}
/// index, its reader with an empty overlay and its unspent set
pub fn check_index(b: &IndexedTransactionStoreBackend, u: &Utxos, outs: &[Out], addrs: &[Addr], what: &str) -> Result<(), String> {
    check_members(b, u, outs, what)?;
    check_listing(b, u, addrs, what)?;
    check_listing(&ReadonlyAugmentedTransactionStoreBackend::new(b, None), u, addrs, what)
}
pub fn check_members<T: TransactionStoreBackendTrait>(b: &T, u: &Utxos, outs: &[Out], what: &str) -> Result<(), String> {
    for o in outs {
        must!(b.has_transaction_output(&repo_out(o)) == u.contains_key(o), "{}: {} is {}unspent, expected {}", what, show(o), if u.contains_key(o) { "not " } else { "" }, if u.contains_key(o) { "unspent" } else { "not unspent" });
    }
    Ok(())
}
fn tell(blocks: &[MBlock]) -> String {
    let mut s = String::new();
    for (i, b) in blocks.iter().enumerate() {
        for t in &b.txs {
            s += &format!("[{} {} spends {:?} outs {:?}] ", i, hx(&t.id[..4]), t.wire.ins.iter().map(|x| format!("{}:{}", hx(&x.hash[..4]), x.index)).collect::<Vec<_>>(), t.wire.outs.iter().take(8).map(|o| format!("{} {}", o.0, hx(&o.1[..o.1.len().min(30)]))).collect::<Vec<_>>());
        }
    }
    s.truncate(4000);
    s
}
fn all_txs(b: &[MBlock]) -> Vec<MTx> {
    b.iter().flat_map(|b| b.txs.iter().cloned()).collect()
}
fn some_blocks(r: &mut Rng) -> usize {
    if r.chance(1, 40) { 20 + r.below(20) } else { 1 + r.below(7) }
}
/// block by block or transaction by transaction
fn feed<T: TransactionStoreBackendTrait>(r: &mut Rng, s: &mut TransactionStore<T>, b: &MBlock, h: usize) {
    if r.chance(1, 3) {
        for t in &b.txs {
            s.add_transaction(&t.repo());
        }
    } else {
        s.add_block(&b.repo(h));
    }
}

pub fn c09(r: &mut Rng, _i: u64) -> Result<Case, String> {
    let p = People::new(r);
    let mut u = Utxos::new();
    let n = some_blocks(r);
    let blocks = p.chain(r, [0; 32], &mut u, n);
    let txs = all_txs(&blocks);
    let (outs, addrs) = (mentioned(r, &txs), addresses(&txs, &p));
    let mut s = IndexedTransactionStore::new(true);
    let mut m = Utxos::new();
    for (h, b) in blocks.iter().enumerate() {
        note(format!("adding block {} of {}", h, tell(&blocks)));
        feed(r, &mut s, b, h);
        b.apply(&mut m).unwrap();
    }
    check_index(s.backend(), &u, &outs, &addrs, &format!("after {}", tell(&blocks)))?;
    // an intermediary store keeps the unspent outputs of its own transactions
    let mut s = IntermediaryTransactionStore::new();
    for (h, b) in blocks.iter().enumerate() {
        feed(r, &mut s, b, h);
    }
    check_members(s.backend(), &u, &outs, &format!("intermediary store after {}", tell(&blocks)))?;
    Ok(Case { nontrivial: !u.is_empty(), text: format!("{} blocks {} transactions {} unspent {}", n, txs.len(), u.len(), hx(&blocks.last().unwrap().id)) })
}

pub fn c10(r: &mut Rng, _i: u64) -> Result<Case, String> {
    let p = People::new(r);
    let mut u = Utxos::new();
    let n = some_blocks(r);
    let blocks = p.chain(r, [0; 32], &mut u, n);
    let txs = all_txs(&blocks);
    let addrs = addresses(&txs, &p);
    let mut s = IndexedTransactionStore::new(true);
    let mut m = Utxos::new();
    for (k, t) in txs.iter().enumerate() {
        let what = format!("transaction {} of {}", k, tell(&blocks));
        note(what.clone());
        s.add_transaction(&t.repo());
        t.apply(&mut m).unwrap();
        check_listing(s.backend(), &m, &addrs, &what)?;
    }
    // an overlay over a part
    let cut = r.below(blocks.len() + 1);
    let (mut s, mut m) = (IndexedTransactionStore::new(true), Utxos::new());
    for (h, b) in blocks[..cut].iter().enumerate() {
        s.add_block(&b.repo(h));
        b.apply(&mut m).unwrap();
    }
    let mut o = AugmentedTransactionStore::new(&s);
    for (h, b) in blocks[cut..].iter().enumerate() {
        o.add_block(&b.repo(cut + h));
    }
    let g = o.take_augmentation();
    check_listing(&ReadonlyAugmentedTransactionStoreBackend::new(s.backend(), Some(&g)), &u, &addrs, &format!("overlay from block {} of {}", cut, tell(&blocks)))?;
    Ok(Case { nontrivial: !u.is_empty(), text: format!("{} blocks {} transactions {} unspent {}", n, txs.len(), u.len(), hx(&blocks.last().unwrap().id)) })
}

/// something that must not be accepted after `blocks`
fn bad(r: &mut Rng, p: &People, u: &Utxos, txs: &[MTx]) -> (&'static str, Vec<MTx>) {
    let keys: Vec<Out> = u.keys().cloned().collect();
    let good = |r: &mut Rng, k: usize| -> Vec<Out> {
        let mut v = vec![];
        for _ in 0..k {
            if !keys.is_empty() {
                let o = *r.pick(&keys);
                if !v.contains(&o) {
                    v.push(o);
                }
            }
        }
        v
    };
    let k = r.below(3);
    let mut ins = good(r, k);
    let at = r.below(ins.len() + 1);
    match r.below(7) {
        0 => {
            ins.insert(at, (r.array(), r.below(3) as u32));
            ("spends an output nobody created", vec![p.from_ins(r, &ins)])
        }
        1 => {
            let spent: Vec<Out> = txs.iter().flat_map(|t| t.spends()).collect();
            if spent.is_empty() {
                ins.insert(at, ([0; 32], 0));
            } else {
                ins.insert(at, *r.pick(&spent));
            }
            ("spends an output that is spent already", vec![p.from_ins(r, &ins)])
        }
        2 if !keys.is_empty() => {
            let o = *r.pick(&keys);
            ins.retain(|x| *x != o);
            let at = r.below(ins.len() + 1);
            ins.insert(at, o);
            let at2 = r.below(ins.len() + 1);
            ins.insert(at2, o);
            ("spends an output twice in one transaction", vec![p.from_ins(r, &ins)])
        }
        3 if !keys.is_empty() => {
            let o = *r.pick(&keys);
            let a = p.from_ins(r, &[o]);
            let mut second = vec![o];
            if !a.wire.outs.is_empty() && !op_return(&a.wire.outs[0].1) && r.chance(1, 2) {
                second.insert(0, (a.id, 0));
            }
            let b = p.from_ins(r, &second);
            ("spends an output twice in one block", vec![a, b])
        }
        4 => {
            // an OP_RETURN output is never unspent
            let mut a = p.coinbase(r).wire;
            a.outs = vec![(7, vec![0x6a, 1, 2]), (8, script_of(&p.0[0]))];
            let a = MTx::new(a);
            let b = p.from_ins(r, &[(a.id, 0)]);
            ("spends an OP_RETURN output", vec![a, b])
        }
        5 if !txs.is_empty() => {
            let t = r.pick(txs).clone();
            ins.insert(at, (t.id, t.wire.outs.len() as u32));
            ("spends an output index that does not exist", vec![p.from_ins(r, &ins)])
        }
        _ => {
            // close to a coinbase input, but not one
            let o = if r.chance(1, 2) { ([0; 32], u32::MAX - 1) } else { let mut h = [0; 32]; h[r.below(32)] = 1; (h, u32::MAX) };
            ins.insert(at, o);
            ("spends an output close to the coinbase marker", vec![p.from_ins(r, &ins)])
        }
    }
}

pub fn c11(r: &mut Rng, i: u64) -> Result<Case, String> {
    let p = People::new(r);
    let mut u = Utxos::new();
    let n = some_blocks(r).min(8);
    let blocks = p.chain(r, [0; 32], &mut u, n);
    let txs = all_txs(&blocks);
    let cut = r.below(n + 1);
    let (kind, evil) = bad(r, &p, &u, &txs);
    let what = format!("{} on top of {}", tell(&[MBlock { parent: [0; 32], id: [0; 32], header: vec![], txs: evil.clone() }]), tell(&blocks));
    let tip = blocks.last().unwrap().id;
    let evil_block = MBlock::new(r, tip, evil.clone());
    let whole = r.chance(1, 2);
    // directly
    let mut s = IndexedTransactionStore::new(true);
    note(format!("applying {}", tell(&blocks)));
    for (h, b) in blocks[..cut].iter().enumerate() {
        feed(r, &mut s, b, h);
    }
    // through an overlay over the first part
    {
        let mut o = AugmentedTransactionStore::new(&s);
        note(format!("applying {} through an overlay from {}", tell(&blocks), cut));
        for (h, b) in blocks[cut..].iter().enumerate() {
            feed(r, &mut o, b, cut + h);
        }
        for (k, t) in evil.iter().enumerate() {
            if k + 1 == evil.len() {
                let t = t.repo();
                let distinct = { let mut v: Vec<_> = t.inputs.iter().map(|i| (i.hash, i.index)).collect(); v.sort(); v.dedup(); v.len() == t.inputs.len() };
                if distinct && evil.len() == 1 {
                    must!(!o.can_add_transaction(&t), "an overlay says it can add a transaction that {} [{}]", kind, what);
                }
            }
        }
        if let Some(g) = p.spend(r, &u) {
            must!(o.can_add_transaction(&g.repo()), "an overlay says it cannot add a transaction whose inputs are unspent [{} then {}]", tell(&blocks), tell(&[MBlock { parent: [0; 32], id: [0; 32], header: vec![], txs: vec![g] }]));
        }
        let done = guarded(|| {
            if whole {
                o.add_block(&evil_block.repo(n));
            } else {
                for t in &evil {
                    o.add_transaction(&t.repo());
                }
            }
        });
        must!(done.is_err(), "an overlay accepts what {} [{}]", kind, what);
    }
    note(format!("applying {} after {}", tell(&blocks), cut));
    for (h, b) in blocks[cut..].iter().enumerate() {
        feed(r, &mut s, b, cut + h);
    }
    let done = guarded(|| {
        if whole {
            s.add_block(&evil_block.repo(n));
        } else {
            for t in &evil {
                s.add_transaction(&t.repo());
            }
        }
    });
    must!(done.is_err(), "the index accepts what {} [{}]", kind, what);
    // merging a batch with such a spend
    let (mut a, mut b) = (IndexedTransactionStore::new(true), IntermediaryTransactionStore::new());
    for (h, x) in blocks[..cut].iter().enumerate() {
        a.add_block(&x.repo(h));
    }
    for (h, x) in blocks[cut..].iter().enumerate() {
        b.add_block(&x.repo(cut + h));
    }
    b.add_block(&evil_block.repo(n));
    must!(guarded(|| b.merge(&mut a)).is_err(), "merging accepts what {} [{}]", kind, what);
    if i % 150 == 3 {
        // the whole index, as built and as loaded from its file
        let logger = Logger::new();
        let threads = 1 + r.below(3);
        note(format!("IndexedStore::from_blocks on {} threads of {}", threads, tell(&blocks)));
        let mut s = IndexedStore::from_blocks(repo_blocks(&blocks), threads, 2, logger);
        let dir = format!("/tmp/vx-harness-{}", std::process::id());
        std::fs::create_dir_all(&dir).unwrap();
        let path = format!("{}/spend-{}", dir, i);
        s.to_file(&path, &logger);
        must!(guarded(|| s.add_block(&evil_block.repo(n))).is_err(), "a built index accepts what {} [{}]", kind, what);
        drop(s);
        let mut s = IndexedStore::from_file(&path, &logger).unwrap();
        let _ = std::fs::remove_file(&path);
        must!(guarded(|| s.add_block(&evil_block.repo(n))).is_err(), "a loaded index accepts what {} [{}]", kind, what);
        drop(s);
        let (threads, size) = (1 + r.below(3), 1 + r.below(n + 1));
        let all = repo_blocks(&[blocks.clone(), vec![evil_block]].concat());
        must!(guarded(|| IndexedStore::from_blocks(all, threads, size, Logger::new())).is_err(), "building on {} threads in batches of {} accepts what {} [{}]", threads, size, kind, what);
    }
    Ok(Case { nontrivial: true, text: format!("{} after {} blocks {}", kind, n, hx(&tip)) })
}

thread_local! {
    static EMPTY: OnceCell<IndexedStore> = OnceCell::new();
}
fn with_empty<R>(f: impl FnOnce(&IndexedStore) -> R) -> R {
    EMPTY.with(|e| f(e.get_or_init(IndexedStore::large)))
}
fn check_headers(h: &[(H32, H32)], blocks: &[MBlock], height: usize, last: Option<H32>, what: &str) -> Result<(), String> {
    let want: Vec<(H32, H32)> = blocks.iter().map(|b| (b.id, b.parent)).collect();
    must!(h == &want[..], "{}: {} headers {:?}, expected {} {:?}", what, h.len(), h.iter().map(|x| hx(&x.0[..4])).collect::<Vec<_>>(), want.len(), want.iter().map(|x| hx(&x.0[..4])).collect::<Vec<_>>());
    must!(height == want.len(), "{}: height {}, expected {}", what, height, want.len());
    must!(last == want.last().map(|x| x.0), "{}: last block id {:?}, expected {:?}", what, last.map(|x| hx(&x)), want.last().map(|x| hx(&x.0)));
    Ok(())
}
fn headers<T: TransactionStoreBackendTrait>(s: &Store<T>) -> Vec<(H32, H32)> {
    s.block_headers().iter().map(|h| (h.hash, h.previous_block_hash)).collect()
}
fn repo_blocks(b: &[MBlock]) -> Vec<Block> {
    b.iter().enumerate().map(|(h, b)| b.repo(h)).collect()
}

pub fn c12(r: &mut Rng, i: u64) -> Result<Case, String> {
    let p = People::new(r);
    let mut u = Utxos::new();
    let n = 1 + r.below(12);
    let blocks = p.chain(r, [0; 32], &mut u, n);
    let txs = all_txs(&blocks);
    let (outs, addrs) = (mentioned(r, &txs), addresses(&txs, &p));
    // any division
    let mut s = IndexedTransactionStore::new(true);
    let mut cuts = vec![];
    let mut k = 0;
    while k < n {
        let e = if r.chance(1, 8) { n } else { (k + r.below(4)).min(n) };
        cuts.push(k);
        let mut b = IntermediaryTransactionStore::new();
        note(format!("batch {}..{} of {}", k, e, tell(&blocks)));
        for (h, x) in blocks[k..e].iter().enumerate() {
            feed(r, &mut b, x, k + h);
        }
        b.merge(&mut s);
        k = e;
    }
    check_index(s.backend(), &u, &outs, &addrs, &format!("batches at {:?} of {}", cuts, tell(&blocks)))?;
    let mut text = format!("{} blocks, batches at {:?}, {} unspent {}", n, cuts, u.len(), hx(&blocks[n - 1].id));
    if i % 40 == 0 {
        // the whole way, on threads
        let size = 1 + r.below(n + 1);
        let threads = 1 + r.below(4);
        let what = format!("IndexedStore::from_blocks, {} threads, batches of {}, {}", threads, size, tell(&blocks));
        note(what.clone());
        let s = IndexedStore::from_blocks(repo_blocks(&blocks), threads, size, Logger::new());
        check_headers(&headers(&s), &blocks, s.height(), s.last_block_hash(), &what)?;
        check_index(s.backend(), &u, &outs, &addrs, &what)?;
        text += &format!("; from_blocks with {} threads, batches of {}", threads, size);
    }
    Ok(Case { nontrivial: !u.is_empty() && cuts.len() > 1, text })
}

pub fn c14(r: &mut Rng, _i: u64) -> Result<Case, String> {
    let p = People::new(r);
    let mut u = Utxos::new();
    let n = 1 + r.below(5);
    let base_blocks = p.chain(r, [0; 32], &mut u, n);
    let base_u = u.clone();
    let k = r.below(5);
    let over_blocks = p.chain(r, base_blocks.last().unwrap().id, &mut u, k);
    let mut v = u.clone();
    let k2 = r.below(3);
    let over2 = p.chain(r, [7; 32], &mut v, k2);
    let all: Vec<MBlock> = [base_blocks.clone(), over_blocks.clone(), over2.clone()].concat();
    let txs = all_txs(&all);
    let (outs, addrs) = (mentioned(r, &txs), addresses(&txs, &p));
    let mut s = IndexedTransactionStore::new(true);
    for (h, b) in base_blocks.iter().enumerate() {
        s.add_block(&b.repo(h));
    }
    let what = format!("overlay of {} + {} blocks over {} blocks: {}", k, k2, n, tell(&all));
    note(what.clone());
    let mut o = AugmentedTransactionStore::new(&s);
    let mut m = base_u.clone();
    for b in &over_blocks {
        for t in &b.txs {
            // each output: unspent exactly when the model says so, also between the transactions
            if r.chance(1, 3) {
                check_members(o.backend(), &m, &outs, &what)?;
            }
            let can = t.spends().len() == t.wire.ins.len();
            must!(!can || o.can_add_transaction(&t.repo()), "{}: the overlay says it cannot add {}", what, hx(&t.id));
            o.add_transaction(&t.repo());
            t.apply(&mut m).unwrap();
        }
    }
    check_members(o.backend(), &u, &outs, &what)?;
    // an overlay over the overlay
    let g2 = {
        let mut o2 = AugmentedTransactionStore::new(&o);
        for b in &over2 {
            o2.add_block(&b.repo(0));
        }
        check_members(o2.backend(), &v, &outs, &format!("overlay over an {}", what))?;
        o2.take_augmentation()
    };
    check_members(o.backend(), &u, &outs, &format!("after an overlay over it, {}", what))?;
    let g = o.take_augmentation();
    check_listing(&ReadonlyAugmentedTransactionStoreBackend::new(s.backend(), Some(&g)), &u, &addrs, &what)?;
    check_listing(&ReadonlyTransactionStoreWrap(ReadonlyTransactionStore::new(ReadonlyAugmentedTransactionStoreBackend::new(s.backend(), Some(&g)))), &u, &addrs, &what)?;
    check_index(s.backend(), &base_u, &outs, &addrs, &format!("the base, after an {}", what))?;
    // spending directly
    {
        let mut o = AugmentedTransactionStoreBackend::new(s.backend());
        let mut m = base_u.clone();
        for _ in 0..12 {
            let x = *r.pick(&outs);
            if r.chance(2, 3) {
                let got = o.spend_transaction_output(&repo_out(&x));
                let want = m.remove(&x).is_some();
                must!(got == want, "{}: spending {} through an overlay gives {}, expected {}", what, show(&x), got, want);
            } else if !m.contains_key(&x) && !coinbase(&x) {
                let a = if r.chance(1, 3) { None } else { Some(*r.pick(&p.0)) };
                let val = some_value(r);
                o.add_transaction_output(repo_out(&x), a.as_ref().map(repo_addr), val);
                m.insert(x, (val, a));
            }
            check_members(&o, &m, &outs, &what)?;
        }
        let g = o.take_augmentation();
        check_listing(&ReadonlyAugmentedTransactionStoreBackend::new(s.backend(), Some(&g)), &m, &addrs, &format!("direct changes, {}", what))?;
    }
    check_index(s.backend(), &base_u, &outs, &addrs, &format!("the base, after an {}", what))?;
    // the second overlay, once the first is part of the base
    for b in &over_blocks {
        s.add_block(&b.repo(0));
    }
    check_listing(&ReadonlyAugmentedTransactionStoreBackend::new(s.backend(), Some(&g2)), &v, &addrs, &format!("second overlay, {}", what))?;
    Ok(Case { nontrivial: k > 0, text: what.chars().take(300).collect() })
}
/// the reader type behind the trait used by the checks
struct ReadonlyTransactionStoreWrap<'a>(ReadonlyTransactionStore<ReadonlyAugmentedTransactionStoreBackend<'a, IndexedTransactionStoreBackend>>);
impl<'a> ReadonlyTransactionStoreBackendTrait for ReadonlyTransactionStoreWrap<'a> {
    fn iterate_transaction_outputs(&self, address: &bitcoin_indexer::address::Address, callback: impl FnMut(&bitcoin_indexer::transaction_output::TransactionOutput, u64)) {
        self.0.iterate_transaction_outputs(address, callback)
    }
    fn balance(&self, address: &bitcoin_indexer::address::Address) -> u64 {
        self.0.balance(address)
    }
}

pub fn c17(r: &mut Rng, i: u64) -> Result<Case, String> {
    let p = People::new(r);
    let mut u = Utxos::new();
    let n = match (i, r.below(8)) { (2, _) => 5000, (9, _) => 66_000, (_, 0) => 0, (_, 1) => 20 + r.below(300), _ => 1 + r.below(8) };
    let blocks = if n > 20 { let mut v = p.chain(r, [0; 32], &mut u, 3); let mut t = v[2].id; for _ in 3..n { let b = MBlock::new(r, t, vec![]); t = b.id; v.push(b); } v } else { p.chain(r, [0; 32], &mut u, n) };
    let txs = all_txs(&blocks);
    let (outs, addrs) = (mentioned(r, &txs), addresses(&txs, &p));
    let what = format!("{} blocks {}", n, tell(&blocks));
    let dir = format!("/tmp/vx-harness-{}", std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let path = format!("{}/store-{}", dir, i);
    let logger = Logger::new();
    note(format!("saving {}", what));
    let s = IndexedStore::from_blocks(repo_blocks(&blocks), 1, 1, logger);
    if r.chance(1, 3) {
        // an older, longer file at the same place
        std::fs::write(&path, vec![0xee; 100_000]).unwrap();
    }
    s.to_file(&path, &logger);
    drop(s);
    note(format!("loading {}", what));
    let t = IndexedStore::from_file(&path, &logger);
    let _ = std::fs::remove_file(&path);
    let mut t = match t {
        Some(t) => t,
        None => return Err(format!("from_file finds nothing after to_file [{}]", what)),
    };
    check_headers(&headers(&t), &blocks, t.height(), t.last_block_hash(), &format!("loaded: {}", what))?;
    check_index(t.backend(), &u, &outs, &addrs, &format!("loaded: {}", what))?;
    // it goes on as before
    let parent = blocks.last().map(|b| b.id).unwrap_or([0; 32]);
    let more = p.chain(r, parent, &mut u, 2);
    note(format!("continuing after loading {}", what));
    for (k, b) in more.iter().enumerate() {
        t.add_block(&b.repo(n + k));
    }
    let txs = [txs, all_txs(&more)].concat();
    let (outs, addrs) = (mentioned(r, &txs), addresses(&txs, &p));
    check_index(t.backend(), &u, &outs, &addrs, &format!("loaded and continued: {}", what))?;
    let _ = BufferWriter::new();
    Ok(Case { nontrivial: !u.is_empty(), text: format!("{} blocks {} unspent", n, u.len()) })
}

pub fn c20(r: &mut Rng, i: u64) -> Result<Case, String> {
    let p = People::new(r);
    let mut u = Utxos::new();
    let n = 1 + r.below(8);
    let first: H32 = if r.chance(1, 2) { [0; 32] } else { r.array() };
    let blocks = p.chain(r, first, &mut u, n);
    let cut = r.below(n + 1);
    let stray_parent = match r.below(5) {
        0 => [0; 32],
        1 => r.array(),
        2 if cut >= 2 => blocks[cut - 2].id,
        3 if cut >= 1 => blocks[cut - 1].parent,
        _ => {
            let mut h = if cut > 0 { blocks[cut - 1].id } else { [0; 32] };
            h[r.below(32)] ^= 1 << r.below(8);
            h
        }
    };
    let mut v = Utxos::new();
    for b in &blocks[..cut] {
        b.apply(&mut v).unwrap();
    }
    let stray = p.block(r, stray_parent, &mut v);
    let what = format!("{} blocks on {}, then one on {}", cut, hx(&first), hx(&stray_parent));
    note(what.clone());
    with_empty(|e| -> Result<(), String> {
        let mut s = AugmentedStore::new(e);
        check_headers(&headers(&s), &[], s.height(), s.last_block_hash(), &what)?;
        for (h, b) in blocks[..cut].iter().enumerate() {
            s.add_block(&b.repo(h));
            check_headers(&headers(&s), &blocks[..h + 1], s.height(), s.last_block_hash(), &what)?;
        }
        let fits = cut == 0 || stray_parent == blocks[cut - 1].id;
        let done = guarded(|| s.add_block(&stray.repo(cut)));
        must!(done.is_ok() == fits, "{}: adding it {}, expected the opposite", what, if done.is_ok() { "succeeds" } else { "fails" });
        if !fits {
            check_headers(&headers(&s), &blocks[..cut], s.height(), s.last_block_hash(), &format!("after the refused one, {}", what))?;
        }
        // the last one again
        if cut > 0 {
            let last = s.block_headers().last().unwrap().hash;
            if last == blocks[cut - 1].id {
                let again = MBlock { parent: blocks[cut - 1].parent, id: blocks[cut - 1].id, header: blocks[cut - 1].header.clone(), txs: vec![p.coinbase(r)] };
                must!(guarded(|| s.add_block(&again.repo(cut))).is_err(), "{}: adding the last block a second time succeeds", what);
                check_headers(&headers(&s), &blocks[..cut], s.height(), s.last_block_hash(), &format!("after the refused last block, {}", what))?;
            }
        }
        // an overlay of the store has no headers of its own
        let o = AugmentedStore::new(&s);
        must!(o.height() == 0 && o.last_block_hash().is_none(), "{}: an overlay starts at height {}", what, o.height());
        Ok(())
    })?;
    if i % 60 == 0 {
        // the same in batches; the order of the headers is the order of the chain
        let (threads, size) = (1 + r.below(4), 1 + r.below(n + 1));
        let mut s = IndexedStore::from_blocks(repo_blocks(&blocks), threads, size, Logger::new());
        let what = format!("from_blocks of {} blocks, {} threads, batches of {}", n, threads, size);
        check_headers(&headers(&s), &blocks, s.height(), s.last_block_hash(), &what)?;
        let mut stray_parent = blocks[n - 1].id;
        stray_parent[r.below(32)] ^= 1;
        let stray = MBlock::new(r, stray_parent, vec![]);
        must!(guarded(|| s.add_block(&stray.repo(n))).is_err(), "{}: a block on {} is added", what, hx(&stray_parent));
        check_headers(&headers(&s), &blocks, s.height(), s.last_block_hash(), &what)?;
        if n > 1 {
            // a batch that does not continue the one before
            let mut broken = blocks.clone();
            let k = 1 + r.below(n - 1);
            broken[k].header[4 + r.below(32)] ^= 1;
            // only this link is broken, or the next one too
            let only = r.chance(1, 2);
            for j in k..n {
                if j > k && only {
                    let parent = broken[j - 1].id;
                    broken[j].header[4..36].copy_from_slice(&parent);
                }
                broken[j].id = sha256d32(&broken[j].header);
            }
            let all = repo_blocks(&broken);
            let done = guarded(|| IndexedStore::from_blocks(all.clone(), 1, 1, Logger::new()));
            must!(done.is_err(), "{}: a broken chain is accepted", what);
            let (threads, size) = (2 + r.below(3), 1 + r.below(n + 1));
            let done = guarded(|| IndexedStore::from_blocks(all, threads, size, Logger::new()));
            must!(done.is_err(), "{} blocks, {} threads, batches of {}: a chain broken at block {} is accepted", n, threads, size, k);
        }
    }
    let _: BTreeMap<u8, u8> = BTreeMap::new();
    Ok(Case { nontrivial: cut > 0, text: what })
}
