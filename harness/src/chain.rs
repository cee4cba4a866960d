//! Reference model of transactions, blocks and the unspent-output set, independent of the repository's code.
#![allow(dead_code)]
use crate::core::*;
use crate::wire::*;
use bitcoin_indexer::address::Address;
use bitcoin_indexer::block::Block;
use bitcoin_indexer::transaction::Transaction;
use bitcoin_indexer::transaction_output::TransactionOutput;
use std::collections::BTreeMap;

pub type Out = (H32, u32);
pub type Utxos = BTreeMap<Out, (u64, Option<Addr>)>;

pub fn op_return(s: &[u8]) -> bool {
    s.first() == Some(&0x6a)
}
pub fn coinbase(o: &Out) -> bool {
    o.0 == [0; 32] && o.1 == u32::MAX
}
pub fn repo_addr(a: &Addr) -> Address {
    if a.0 == 0 { Address::P2PKH(a.1) } else { Address::P2SH(a.1) }
}
pub fn repo_out(o: &Out) -> TransactionOutput {
    TransactionOutput::new(o.0, o.1)
}

/// a transaction as the model sees it
#[derive(Clone, Debug)]
pub struct MTx {
    pub wire: Tx,
    pub id: H32,
}
impl MTx {
    pub fn new(wire: Tx) -> Self {
        let id = wire.id();
        MTx { wire, id }
    }
    pub fn repo(&self) -> Transaction {
        Transaction::from_slice(&self.wire.wire())
    }
    pub fn spends(&self) -> Vec<Out> {
        self.wire.ins.iter().map(|i| (i.hash, i.index)).filter(|o| !coinbase(o)).collect()
    }
    /// None when it spends something that is not unspent
    pub fn apply(&self, u: &mut Utxos) -> Option<()> {
        for o in self.spends() {
            u.remove(&o)?;
        }
        self.create(u);
        Some(())
    }
    pub fn create(&self, u: &mut Utxos) {
        for (i, (v, s)) in self.wire.outs.iter().enumerate() {
            if !op_return(s) {
                u.insert((self.id, i as u32), (*v, ref_script(s)));
            }
        }
    }
}
#[derive(Clone, Debug)]
pub struct MBlock {
    pub parent: H32,
    pub id: H32,
    pub header: Vec<u8>,
    pub txs: Vec<MTx>,
}
impl MBlock {
    pub fn new(r: &mut Rng, parent: H32, txs: Vec<MTx>) -> Self {
        let header = header(r, parent);
        MBlock { parent, id: sha256d32(&header), header, txs }
    }
    /// look for a header whose id ends in so many zero bytes
    pub fn mine(&mut self, zeros: usize) {
        for n in 0u32.. {
            if self.id[32 - zeros..].iter().all(|b| *b == 0) {
                return;
            }
            self.header[76..80].copy_from_slice(&n.to_le_bytes());
            self.id = sha256d32(&self.header);
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        block_bytes(&self.header, &self.txs.iter().map(|t| t.wire.clone()).collect::<Vec<_>>(), 0)
    }
    pub fn repo(&self, height: usize) -> Block {
        Block::new(&self.bytes(), height)
    }
    pub fn apply(&self, u: &mut Utxos) -> Option<()> {
        for t in &self.txs {
            t.apply(u)?;
        }
        Some(())
    }
}
/// a few addresses that everybody uses
pub struct People(pub Vec<Addr>, pub fn(&mut Rng) -> u64);
impl People {
    pub fn new(r: &mut Rng) -> Self {
        let n = 1 + r.below(5);
        let mut v: Vec<Addr> = (0..n).map(|_| some_addr(r)).collect();
        // the same hash under both kinds
        if r.chance(1, 2) {
            let a = v[0];
            v.push((5 - a.0, a.1));
        }
        v.dedup();
        People(v, some_value)
    }
    pub fn script(&self, r: &mut Rng) -> Vec<u8> {
        match r.below(12) {
            0 => some_script(r),
            1 => vec![],
            2 => [vec![0x6a], { let k = r.below(30); r.bytes(k) }].concat(),
            3 => vec![*r.pick(&[0x6au8, 0x51, 0x00])],
            4 => [vec![0x51, 0x6a], r.bytes(3)].concat(),
            _ => script_of(r.pick(&self.0)),
        }
    }
    pub fn outs(&self, r: &mut Rng) -> Vec<(u64, Vec<u8>)> {
        let n = match r.below(30) { 0 => 0, 1 => 250 + r.below(20), _ => 1 + r.below(5) };
        (0..n).map(|_| ((self.1)(r), self.script(r))).collect()
    }
    /// a transaction that spends some of `u` (each at most once)
    pub fn spend(&self, r: &mut Rng, u: &Utxos) -> Option<MTx> {
        if u.is_empty() {
            return None;
        }
        let keys: Vec<Out> = u.keys().cloned().collect();
        let mut ins: Vec<Out> = vec![];
        for _ in 0..1 + r.below(4) {
            // prefer siblings: outputs of one transaction
            let o = if !ins.is_empty() && r.chance(1, 2) {
                let h = ins[0].0;
                keys.iter().cloned().find(|o| o.0 == h && !ins.contains(o)).unwrap_or_else(|| *r.pick(&keys))
            } else {
                *r.pick(&keys)
            };
            if !ins.contains(&o) {
                ins.push(o);
            }
        }
        Some(self.from_ins(r, &ins))
    }
    pub fn from_ins(&self, r: &mut Rng, ins: &[Out]) -> MTx {
        let segwit = r.chance(1, 3);
        let ins = ins
            .iter()
            .map(|o| In { hash: o.0, index: o.1, script: { let k = r.below(5); r.bytes(k) }, sequence: u32::MAX, witness: if segwit { vec![r.bytes(3)] } else { vec![] } })
            .collect();
        MTx::new(Tx { version: 1, ins, outs: self.outs(r), lock: r.next() as u32, segwit, flag: 1, wide: 0 })
    }
    pub fn coinbase(&self, r: &mut Rng) -> MTx {
        self.from_ins(r, &[([0; 32], u32::MAX)])
    }
    /// a block on `parent`, valid on top of `u`, which it is applied to
    pub fn block(&self, r: &mut Rng, parent: H32, u: &mut Utxos) -> MBlock {
        let mut txs = vec![];
        if !r.chance(1, 12) {
            txs.push(self.coinbase(r));
        }
        for t in &txs {
            MTx::apply(t, u).unwrap();
        }
        for _ in 0..r.below(5) {
            if let Some(t) = self.spend(r, u) {
                t.apply(u).unwrap();
                txs.push(t);
            }
        }
        MBlock::new(r, parent, txs)
    }
    pub fn chain(&self, r: &mut Rng, parent: H32, u: &mut Utxos, n: usize) -> Vec<MBlock> {
        let mut p = parent;
        (0..n)
            .map(|_| {
                let b = self.block(r, p, u);
                p = b.id;
                b
            })
            .collect()
    }
}
pub fn by_addr(u: &Utxos, a: &Addr) -> BTreeMap<Out, u64> {
    u.iter().filter(|(_, v)| v.1.as_ref() == Some(a)).map(|(k, v)| (*k, v.0)).collect()
}
/// every output id that was ever mentioned, and some that were not
pub fn mentioned(r: &mut Rng, txs: &[MTx]) -> Vec<Out> {
    let mut v: Vec<Out> = vec![([0; 32], u32::MAX), ([0; 32], 0), (r.array(), 0)];
    for t in txs {
        for i in 0..t.wire.outs.len() as u32 {
            v.push((t.id, i));
        }
        v.push((t.id, t.wire.outs.len() as u32));
        v.push((t.id, u32::MAX));
        v.extend(t.wire.ins.iter().map(|i| (i.hash, i.index)));
    }
    v.sort();
    v.dedup();
    v
}
pub fn addresses(txs: &[MTx], p: &People) -> Vec<Addr> {
    let mut v: Vec<Addr> = txs.iter().flat_map(|t| t.wire.outs.iter().filter_map(|o| ref_script(&o.1))).collect();
    v.extend(p.0.iter().cloned());
    v.sort();
    v.dedup();
    v
}
