use crate::core::*;
use crate::must;
use crate::wire::*;
use bitcoin_indexer::block::{iterate_transactions, Block, BlockHeader, BlockTrait};
use bitcoin_indexer::hashing_buffer_reader::{Hasher, HashingBufferReader};
use bitcoin_indexer::transaction::Transaction;

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}

/// a sequence of reads over one buffer
pub fn c06(r: &mut Rng, _index: u64) -> Result<Case, String> {
    // build the buffer out of what will be read
    let mut buf: Vec<u8> = vec![];
    let lead = r.below(6);
    buf.extend(r.bytes(lead));
    let mut ops: Vec<(usize, usize, Vec<u8>)> = vec![]; // kind, length, bytes of the payload
    for _ in 0..1 + r.below(8) {
        let kind = r.below(10);
        let (bytes, payload) = match kind {
            0 | 1 => { let b = r.bytes(4); (b.clone(), b) }
            2 => { let b = vec![*r.pick(&[0, 1, 2, 128, 255])]; (b.clone(), b) }
            3 => { let b = r.bytes(1); (b.clone(), b) }
            4 => { let b = r.bytes(2); (b.clone(), b) }
            5 => { let b = r.bytes(8); (b.clone(), b) }
            6 => {
                let v = match r.below(4) {
                    0 => *r.pick(&[0, 1, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xfffe, 0xffff, 0x10000, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, u64::MAX]),
                    1 => r.below(256) as u64,
                    _ => r.next() >> r.below(64),
                };
                let b = var_int(v, if r.chance(1, 4) { 1 + r.below(3) } else { 0 });
                (b, v.to_le_bytes().to_vec())
            }
            7 => {
                let n = some_len(r);
                let p = r.bytes(n);
                ([var_int(n as u64, if r.chance(1, 6) { 1 + r.below(3) } else { 0 }), p.clone()].concat(), p)
            }
            8 => { let b = r.bytes(32); (b.clone(), b) }
            _ => { let n = some_len(r); let b = r.bytes(n); (b.clone(), b) }
        };
        ops.push((kind, bytes.len(), payload));
        buf.extend(bytes);
    }
    let after = r.below(4);
    buf.extend(r.bytes(after));
    let desc = format!("lead {} reads {:?} of {}", lead, ops.iter().map(|o| (o.0, o.1)).collect::<Vec<_>>(), hx(&buf[..buf.len().min(200)]));
    note(desc.clone());
    let mut rd = HashingBufferReader::new(&buf);
    let mut hasher = Hasher::new();
    let mut fed: Vec<u8> = vec![];
    let pre = r.below(5);
    let pre = r.bytes(pre);
    hasher.update(&pre);
    fed.extend(&pre);
    let mut at = 0;
    {
        let hash_lead = r.chance(1, 2);
        if hash_lead {
            rd.skip(lead, &mut Some(&mut hasher));
            fed.extend(&buf[..lead]);
        } else {
            rd.skip(lead, &mut None);
        }
        at += lead;
    }
    must!(rd.offset() == at, "after skip({}) the offset is {} [{}]", lead, rd.offset(), desc);
    for (kind, len, payload) in &ops {
        let hashed = r.chance(2, 3);
        must!(at == buf.len() || rd.peek_u8() == buf[at], "peek at {} gives {} [{}]", at, rd.peek_u8(), desc);
        must!(rd.offset() == at, "peeking moved the reader from {} to {} [{}]", at, rd.offset(), desc);
        let mut h = if hashed { Some(&mut hasher) } else { None };
        let (got, want): (Vec<u8>, Vec<u8>) = match kind {
            0 => (rd.read_i32_le(&mut h).to_string().into(), (le(payload) as u32 as i32).to_string().into()),
            1 => (rd.read_u32_le(&mut h).to_string().into(), le(payload).to_string().into()),
            2 => (rd.read_bool(&mut h).to_string().into(), (payload[0] != 0).to_string().into()),
            3 => (vec![rd.read_u8(&mut h)], payload.clone()),
            4 => (rd.read_u16_le(&mut h).to_string().into(), le(payload).to_string().into()),
            5 => (rd.read_u64_le(&mut h).to_string().into(), le(payload).to_string().into()),
            6 => (rd.read_var_int_le(&mut h).to_string().into(), le(payload).to_string().into()),
            7 => (rd.read_var_buffer_le(&mut h).to_vec(), payload.clone()),
            8 => (rd.read_hash(&mut h).to_vec(), payload.clone()),
            _ => (rd.read_buffer(*len, &mut h).to_vec(), payload.clone()),
        };
        must!(got == want, "read of kind {} at {} gives {}, expected {} [{}]", kind, at, hx(&got), hx(&want), desc);
        if hashed {
            fed.extend(&buf[at..at + len]);
        }
        at += len;
        must!(rd.offset() == at, "read of kind {} and {} bytes leaves the offset at {}, expected {} [{}]", kind, len, rd.offset(), at, desc);
    }
    let d = hasher.digest();
    must!(d[..] == sha256d(&fed)[..], "hash over the consumed bytes is {}, expected {} [{}]", hx(&d), hx(&sha256d(&fed)), desc);
    Ok(Case { nontrivial: true, text: desc })
}

pub fn check_tx(t: &Transaction, m: &Tx, what: &str) -> Result<(), String> {
    must!(t.hash == m.id(), "{}: id {}, expected {}", what, hx(&t.hash), hx(&m.id()));
    must!(t.inputs.len() == m.ins.len(), "{}: {} inputs, expected {}", what, t.inputs.len(), m.ins.len());
    for (i, (a, b)) in t.inputs.iter().zip(&m.ins).enumerate() {
        must!(a.hash == b.hash && a.index == b.index, "{}: input {} is {}:{}, expected {}:{}", what, i, hx(&a.hash), a.index, hx(&b.hash), b.index);
    }
    must!(t.outputs.len() == m.outs.len(), "{}: {} outputs, expected {}", what, t.outputs.len(), m.outs.len());
    for (i, (a, b)) in t.outputs.iter().zip(&m.outs).enumerate() {
        must!(a.value == b.0 && a.script == b.1, "{}: output {} is {} {}, expected {} {}", what, i, a.value, hx(&a.script), b.0, hx(&b.1));
    }
    Ok(())
}
fn short(b: &[u8]) -> String {
    if b.len() <= 3000 { hx(b) } else { format!("{}.. ({} bytes)", hx(&b[..3000]), b.len()) }
}

pub fn c07(r: &mut Rng, _index: u64) -> Result<Case, String> {
    let m = some_tx(r);
    let w = m.wire();
    let what = format!("Transaction::from_slice({})", short(&w));
    note(what.clone());
    check_tx(&Transaction::from_slice(&w), &m, &what)?;
    // bytes that follow
    let k = 1 + r.below(9);
    let with = [w.clone(), r.bytes(k)].concat();
    check_tx(&Transaction::from_slice(&with), &m, &format!("{} followed by {}", what, hx(&with[w.len()..])))?;
    // at a position, then another one
    let lead = r.below(9);
    let lead = r.bytes(lead);
    let m2 = some_tx(r);
    let w2 = m2.wire();
    let all = [lead.clone(), w.clone(), w2.clone()].concat();
    let what = format!("from_reader at {} of {}", lead.len(), short(&all));
    note(what.clone());
    let mut rd = HashingBufferReader::new(&all);
    rd.skip(lead.len(), &mut None);
    check_tx(&Transaction::from_reader(&mut rd), &m, &what)?;
    must!(rd.offset() == lead.len() + w.len(), "{}: offset {} afterwards, expected {}", what, rd.offset(), lead.len() + w.len());
    check_tx(&Transaction::from_reader(&mut rd), &m2, &what)?;
    must!(rd.offset() == all.len(), "{}: offset {} at the end, expected {}", what, rd.offset(), all.len());
    // without the witness data
    if m.segwit {
        let s = m.stripped();
        let what = format!("Transaction::from_slice({}), the witness-free form", short(&s));
        note(what.clone());
        check_tx(&Transaction::from_slice(&s), &m, &what)?;
    }
    Ok(Case { nontrivial: !m.outs.is_empty(), text: hx(&m.id()) + &format!(" segwit {} ins {} outs {}", m.segwit, m.ins.len(), m.outs.len()) })
}

pub fn c08(r: &mut Rng, index: u64) -> Result<Case, String> {
    let n = if index == 40 || r.below(20_000) == 0 { 70_000 } else { match r.below(20) { 0 => 0, 1 => if r.chance(1, 10) { *r.pick(&[252, 253, 254, 260]) } else { 1 }, _ => 1 + r.below(6) } };
    let mut txs: Vec<Tx> = if n > 1000 { vec![some_tx(r); n] } else { (0..n).map(|_| some_tx(r)).collect() };
    if n > 100 {
        for t in txs.iter_mut() {
            t.ins.truncate(1);
            t.outs.truncate(1);
        }
    }
    let parent = r.array();
    let h = header(r, parent);
    let mut b = block_bytes(&h, &txs, if r.chance(1, 8) { 1 + r.below(3) } else { 0 });
    if r.chance(1, 3) {
        let k = r.below(20);
        b.extend(r.bytes(k));
    }
    let what = format!("block {}", short(&b));
    note(what.clone());
    let id = sha256d32(&b[..80]);
    let bh = BlockHeader::from_buffer(&b);
    must!(bh.hash == id && bh.previous_block_hash == parent, "BlockHeader id {} parent {}, expected {} {} [{}]", hx(&bh.hash), hx(&bh.previous_block_hash), hx(&id), hx(&parent), what);
    let mut got = vec![];
    iterate_transactions(&b, &mut |t| got.push(t));
    must!(got.len() == n, "{} transactions read, expected {} [{}]", got.len(), n, what);
    for (i, (t, m)) in got.iter().zip(&txs).enumerate() {
        check_tx(t, m, &format!("transaction {} of {}", i, what))?;
    }
    let height = *r.pick(&[0usize, 1, 2, 700_000, usize::MAX]);
    let block = Block::new(&b, height);
    must!(block.height() == height, "height {}, expected {} [{}]", block.height(), height, what);
    must!(block.hash() == id && block.header().hash == id, "block id {}, expected {} [{}]", hx(&block.hash()), hx(&id), what);
    must!(block.previous_block_hash() == parent && block.header().previous_block_hash == parent, "parent id {}, expected {} [{}]", hx(&block.previous_block_hash()), hx(&parent), what);
    for _ in 0..2 {
        let mut got = vec![];
        block.transactions(&mut |t| got.push(t.clone()));
        must!(got.len() == n, "the block presents {} transactions, expected {} [{}]", got.len(), n, what);
        for (i, (t, m)) in got.iter().zip(&txs).enumerate() {
            check_tx(t, m, &format!("presented transaction {} of {}", i, what))?;
        }
    }
    Ok(Case { nontrivial: n > 0, text: format!("{} txs {}", hx(&id), n) })
}
