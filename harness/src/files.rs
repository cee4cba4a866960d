//! C18, C19: block files written to a scratch directory, read back by BlockFileReader::blocks.
use crate::core::*;
use crate::must;
use crate::parse::check_tx;
use crate::wire::*;
use bitcoin_indexer::block::BlockTrait;
use bitcoin_indexer::block_file_reader::BlockFileReader;
use bitcoin_indexer::logger::Logger;
use std::collections::{HashMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

/// a directory of its own, removed when dropped
pub struct Scratch(pub PathBuf);
static NUMBER: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new() -> Self {
        let base = if PathBuf::from("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("vx-harness-{}-{}", std::process::id(), NUMBER.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone)]
struct B {
    parent: H32,
    id: H32,
    txs: Vec<Tx>,
    bytes: Vec<u8>,
}
fn one(r: &mut Rng, parent: H32, rich: bool) -> B {
    let h = header(r, parent);
    let n = if rich { r.below(4) } else { r.below(2) };
    let mut txs: Vec<Tx> = (0..n).map(|_| some_tx(r)).collect();
    if rich && r.chance(1, 60) {
        let mut t = some_tx(r);
        let k = 60_000 + r.below(100_000);
        t.outs.push((1, r.bytes(k)));
        txs.push(t);
    }
    let bytes = block_bytes(&h, &txs, 0);
    B { parent, id: sha256d32(&h), txs, bytes }
}
/// records into files; the tail of each is any number of zero bytes
fn write(r: &mut Rng, dir: &Scratch, blocks: &[B]) -> String {
    let files = 1 + r.below(3);
    let mut text = String::new();
    let mut at = 0;
    let mut names: Vec<usize> = vec![0, 1, 2, 10, 99_999, 12_345];
    r.shuffle(&mut names);
    for f in 0..files {
        let n = if f + 1 == files { blocks.len() - at } else { r.below(blocks.len() - at + 1) };
        let mut b = vec![];
        for x in &blocks[at..at + n] {
            b.extend(0xd9b4bef9u32.to_le_bytes());
            b.extend((x.bytes.len() as u32).to_le_bytes());
            b.extend(&x.bytes);
        }
        at += n;
        let zeros = match r.below(6) { 0 => 0, 1 => 1 + r.below(8), 2 => 8 + r.below(80), 3 => 87 + r.below(4), 4 => 88, _ => r.below(400) };
        b.extend(vec![0; zeros]);
        if zeros >= 4 && r.chance(1, 4) {
            // what follows the zero marker is not read
            let k = r.below(200);
            b.extend(r.bytes(k));
        }
        let name = format!("blk{:05}.dat", names[f]);
        text += &format!("{}: {} records, {} zero bytes; ", name, n, zeros);
        std::fs::write(dir.0.join(name), b).unwrap();
    }
    for other in ["rev00000.dat", "index.txt", "xor.dat"] {
        if r.chance(1, 3) {
            let k = r.below(120);
            std::fs::write(dir.0.join(other), r.bytes(k)).unwrap();
        }
    }
    text
}
fn threads(r: &mut Rng) -> usize {
    if r.chance(1, 2) { 1 } else { 2 + r.below(4) }
}

pub fn c18(r: &mut Rng, _i: u64) -> Result<Case, String> {
    // a forest: some trees start at the zero hash, others at a block that is not there
    let n = match r.below(20) { 0 => 0, 1 => 30 + r.below(60), _ => 1 + r.below(14) };
    let shape = r.below(4);
    let mut all: Vec<B> = vec![];
    for i in 0..n {
        let parent = if all.is_empty() || r.chance(1, 10) {
            if r.chance(2, 3) { [0; 32] } else { r.array() }
        } else {
            match shape {
                0 => all[i - 1].id,
                1 => all[r.below(i)].id,
                2 => all[i - 1 - r.below(i.min(3))].id,
                _ => if r.chance(1, 4) { all[r.below(i)].id } else { all[i - 1].id },
            }
        };
        let b = one(r, parent, false);
        all.push(b);
    }
    // an ancestor goes missing
    if n > 2 && r.chance(1, 3) {
        let k = r.below(n);
        all.remove(k);
    }
    let n = all.len();
    let mut order: Vec<B> = all.clone();
    if r.chance(2, 3) {
        r.shuffle(&mut order);
    } else if r.chance(1, 2) {
        order.reverse();
    }
    let dir = Scratch::new();
    let layout = write(r, &dir, &order);
    let t = threads(r);
    // longest: depth of every block that hangs off the zero hash
    let mut depth: HashMap<H32, usize> = HashMap::new();
    loop {
        let before = depth.len();
        for b in &all {
            if b.parent == [0; 32] {
                depth.insert(b.id, 1);
            } else if let Some(d) = depth.get(&b.parent).cloned() {
                depth.insert(b.id, d + 1);
            }
        }
        if depth.len() == before {
            break;
        }
    }
    let longest = depth.values().cloned().max().unwrap_or(0);
    let what = format!("{} blocks (id parent): {}; {}{} threads", n, order.iter().take(40).map(|b| format!("{} {}", hx(&b.id[..3]), hx(&b.parent[..3]))).collect::<Vec<_>>().join(", "), layout, t);
    note(what.clone());
    let got = BlockFileReader::new(dir.0.to_str().unwrap()).blocks(t, &Logger::new());
    let ids: HashSet<H32> = all.iter().map(|b| b.id).collect();
    let mut parent = [0; 32];
    for (i, b) in got.iter().enumerate() {
        must!(ids.contains(&b.hash()), "block {} of the chain, {}, is not one of the blocks [{}]", i, hx(&b.hash()), what);
        must!(b.previous_block_hash() == parent, "block {} of the chain has parent {}, expected {} [{}]", i, hx(&b.previous_block_hash()), hx(&parent), what);
        must!(all.iter().any(|x| x.id == b.hash() && x.parent == parent), "block {} of the chain is reported with parent {} [{}]", i, hx(&parent), what);
        must!(b.height() == i, "block {} of the chain has height {} [{}]", i, b.height(), what);
        parent = b.hash();
    }
    must!(got.len() == longest, "the chain has {} blocks, the longest one {} [{}]", got.len(), longest, what);
    Ok(Case { nontrivial: longest > 1 && n > longest, text: what })
}

pub fn c19(r: &mut Rng, i: u64) -> Result<Case, String> {
    let n = match r.below(12) { _ if i == 5 => 2, 0 => 0, 1 => 40 + r.below(40), _ => 1 + r.below(10) };
    let mut chain: Vec<B> = vec![];
    let mut parent = [0; 32];
    for k in 0..n {
        let mut b = one(r, parent, true);
        if i == 5 && k == 0 {
            // larger than any Bitcoin block
            let header = header(r, parent);
            b.txs = vec![some_tx(r), some_tx(r), some_tx(r)];
            b.txs[1].outs.push((1, r.bytes(5_000_000)));
            b = B { parent, id: sha256d32(&header), bytes: block_bytes(&header, &b.txs, 0), txs: b.txs };
        }
        parent = b.id;
        chain.push(b);
    }
    let mut order = chain.clone();
    if r.chance(1, 2) {
        r.shuffle(&mut order);
    }
    let dir = Scratch::new();
    let layout = write(r, &dir, &order);
    let t = threads(r);
    let what = format!("record lengths {:?}; {}{} threads", order.iter().map(|b| b.bytes.len()).collect::<Vec<_>>(), layout, t);
    note(what.clone());
    let got = BlockFileReader::new(dir.0.to_str().unwrap()).blocks(t, &Logger::new());
    must!(got.len() == n, "{} of {} blocks found [{}]", got.len(), n, what);
    for (i, (b, m)) in got.iter().zip(&chain).enumerate() {
        let h = b.header();
        must!(b.hash() == m.id && h.hash == m.id, "block {} has id {}, expected {} [{}]", i, hx(&b.hash()), hx(&m.id), what);
        must!(b.previous_block_hash() == m.parent && h.previous_block_hash == m.parent, "block {} has parent {}, expected {} [{}]", i, hx(&b.previous_block_hash()), hx(&m.parent), what);
        for _ in 0..2 {
            let mut got = vec![];
            b.transactions(&mut |t| got.push(t.clone()));
            must!(got.len() == m.txs.len(), "block {} presents {} transactions, expected {} [{}]", i, got.len(), m.txs.len(), what);
            for (k, (t, m)) in got.iter().zip(&m.txs).enumerate() {
                check_tx(t, m, &format!("transaction {} of block {} [{}]", k, i, what))?;
            }
        }
    }
    Ok(Case { nontrivial: n > 1, text: what })
}
