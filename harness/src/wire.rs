//! Reference model of the Bitcoin wire format, independent of the repository's code.
#![allow(dead_code)]
use crate::core::*;

/// version byte (0: P2PKH, 5: P2SH) and hash
pub type Addr = (u8, [u8; 20]);
pub type H32 = [u8; 32];

pub fn sha256d(b: &[u8]) -> Vec<u8> {
    use sha2::Digest;
    sha2::Sha256::digest(&sha2::Sha256::digest(b)).to_vec()
}

pub fn sha256d32(b: &[u8]) -> H32 {
    let mut h = [0; 32];
    h.copy_from_slice(&sha256d(b));
    h
}
pub fn some_hash(r: &mut Rng) -> [u8; 20] {
    match r.below(6) {
        0 => [0; 20],
        1 => [0xff; 20],
        2 => {
            let mut h = r.array::<20>();
            let z = r.below(20);
            h[..z].iter_mut().for_each(|x| *x = 0);
            h
        }
        _ => r.array(),
    }
}
pub fn some_addr(r: &mut Rng) -> Addr {
    let h = some_hash(r);
    (*r.pick(&[0, 5]), h)
}
pub fn ref_script(s: &[u8]) -> Option<Addr> {
    let mut h = [0; 20];
    if s.len() == 25 && s[..3] == [0x76, 0xa9, 0x14] && s[23..] == [0x88, 0xac] {
        h.copy_from_slice(&s[3..23]);
        Some((0, h))
    } else if s.len() == 23 && s[..2] == [0xa9, 0x14] && s[22] == 0x87 {
        h.copy_from_slice(&s[2..22]);
        Some((5, h))
    } else {
        None
    }
}
pub fn script_of(a: &Addr) -> Vec<u8> {
    let (v, h) = *a;
    let mut s = if v == 0 { vec![0x76, 0xa9, 0x14] } else { vec![0xa9, 0x14] };
    s.extend(h);
    s.extend(if v == 0 { vec![0x88, 0xac] } else { vec![0x87] });
    s
}
pub fn some_script(r: &mut Rng) -> Vec<u8> {
    let mut s = script_of(&some_addr(r));
    match r.below(10) {
        0..=4 => {}
        5 => {
            let k = r.below(s.len());
            s[k] ^= 1 << r.below(8);
        }
        6 => {
            // opcode positions
            let k = *r.pick(&[0usize, 1, 2, s.len() - 1, s.len() - 2]);
            s[k] = r.byte();
        }
        7 => match r.below(4) {
            0 => s.push(r.byte()),
            1 => {
                s.pop();
            }
            2 => s.insert(0, r.byte()),
            _ => {
                s.remove(0);
            }
        },
        8 => {
            // pay to public key, witness, data carrier
            s = match r.below(5) {
                0 => [vec![0x21], r.bytes(33), vec![0xac]].concat(),
                1 => [vec![0x00, 0x14], r.bytes(20)].concat(),
                2 => [vec![0x00, 0x20], r.bytes(32)].concat(),
                3 => [vec![0x6a, 0x15], r.bytes(21)].concat(),
                _ => vec![],
            }
        }
        _ => {
            let n = *r.pick(&[0usize, 1, 2, 3, 22, 23, 24, 25, 26, 60, 252, 253, 254, 300]);
            s = r.bytes(n);
        }
    }
    s
}


/// variable-length integer; `wide` picks a longer form than necessary
pub fn var_int(v: u64, wide: usize) -> Vec<u8> {
    let need = if v < 0xfd { 0 } else if v <= 0xffff { 1 } else if v <= 0xffff_ffff { 2 } else { 3 };
    let b = v.to_le_bytes();
    match need.max(wide) {
        0 => vec![b[0]],
        1 => [&[0xfd][..], &b[..2]].concat(),
        2 => [&[0xfe][..], &b[..4]].concat(),
        _ => [&[0xff][..], &b[..8]].concat(),
    }
}

#[derive(Clone, Debug)]
pub struct In {
    pub hash: H32,
    pub index: u32,
    pub script: Vec<u8>,
    pub sequence: u32,
    pub witness: Vec<Vec<u8>>,
}
#[derive(Clone, Debug)]
pub struct Tx {
    pub version: u32,
    pub ins: Vec<In>,
    pub outs: Vec<(u64, Vec<u8>)>,
    pub lock: u32,
    pub segwit: bool,
    /// flag byte, when segwit
    pub flag: u8,
    /// use longer variable-length integers than necessary for counts
    pub wide: usize,
}
impl Tx {
    fn body(&self) -> Vec<u8> {
        let mut b = var_int(self.ins.len() as u64, self.wide);
        for i in &self.ins {
            b.extend(i.hash);
            b.extend(i.index.to_le_bytes());
            b.extend(var_int(i.script.len() as u64, self.wide));
            b.extend(&i.script);
            b.extend(i.sequence.to_le_bytes());
        }
        b.extend(var_int(self.outs.len() as u64, self.wide));
        for (v, s) in &self.outs {
            b.extend(v.to_le_bytes());
            b.extend(var_int(s.len() as u64, self.wide));
            b.extend(s);
        }
        b
    }
    pub fn stripped(&self) -> Vec<u8> {
        [&self.version.to_le_bytes()[..], &self.body(), &self.lock.to_le_bytes()].concat()
    }
    pub fn wire(&self) -> Vec<u8> {
        if !self.segwit {
            return self.stripped();
        }
        let mut b = self.version.to_le_bytes().to_vec();
        b.push(0);
        b.push(self.flag);
        b.extend(self.body());
        for i in &self.ins {
            b.extend(var_int(i.witness.len() as u64, 0));
            for w in &i.witness {
                b.extend(var_int(w.len() as u64, 0));
                b.extend(w);
            }
        }
        b.extend(self.lock.to_le_bytes());
        b
    }
    pub fn id(&self) -> H32 {
        sha256d32(&self.stripped())
    }
    pub fn is_coinbase_input(i: &In) -> bool {
        i.hash == [0; 32] && i.index == u32::MAX
    }
}
pub fn some_len(r: &mut Rng) -> usize {
    match r.below(20) {
        0..=5 => 0,
        6..=14 => r.below(40),
        15..=17 => *r.pick(&[107, 108, 251, 252, 253, 254, 255, 256, 257, 300]),
        18 => r.below(2000),
        _ => *r.pick(&[1000, 0x7fff, 0xfffe, 0xffff, 0x10000, 0x10001]),
    }
}
pub fn some_value(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => r.below(1000) as u64,
        2 => 2_100_000_000_000_000,
        3 => 1 << r.below(50),
        _ => r.next() % 5_000_000_000,
    }
}
/// a transaction with arbitrary contents
pub fn some_tx(r: &mut Rng) -> Tx {
    let segwit = r.chance(1, 2);
    let many = r.chance(1, 150);
    let n_in = if many { *r.pick(&[252usize, 253, 254, 300]) } else { 1 + r.below(4) };
    let n_out = if r.chance(1, 150) { *r.pick(&[252usize, 253, 254, 300]) } else { r.below(5) };
    let ins = (0..n_in)
        .map(|_| {
            let coinbase = r.chance(1, 8);
            let n = if many { r.below(3) } else { some_len(r) };
            In {
                hash: if coinbase { [0; 32] } else { r.array() },
                index: if coinbase { u32::MAX } else { *r.pick(&[0, 1, 2, 255, 256, 65536, u32::MAX, r.clone().next() as u32]) },
                script: r.bytes(n),
                sequence: *r.pick(&[0, u32::MAX, u32::MAX - 1, r.clone().next() as u32]),
                witness: if segwit {
                    let k = match r.below(12) { 0..=3 => 0, 4..=10 => r.below(4), _ => if many { 1 } else { *r.pick(&[252, 253, 260]) } };
                    (0..k).map(|_| { let n = if k > 10 { r.below(3) } else { some_len(r) }; r.bytes(n) }).collect()
                } else {
                    vec![]
                },
            }
        })
        .collect();
    let outs = (0..n_out)
        .map(|_| {
            let v = if r.chance(1, 8) { r.next() } else { some_value(r) };
            let s = if r.chance(1, 3) { some_script(r) } else { let n = if n_out > 10 { r.below(3) } else { some_len(r) }; r.bytes(n) };
            (v, s)
        })
        .collect();
    Tx { version: *r.pick(&[1, 2, 0, u32::MAX, 0x20000000]), ins, outs, lock: *r.pick(&[0, 1, 500_000_000, u32::MAX, r.clone().next() as u32]), segwit, flag: 1, wide: if r.chance(1, 12) { 1 + r.below(3) } else { 0 } }
}
/// header: version, parent, 44 bytes
pub fn header(r: &mut Rng, parent: H32) -> Vec<u8> {
    [r.bytes(4), parent.to_vec(), r.bytes(44)].concat()
}
pub fn block_bytes(header: &[u8], txs: &[Tx], wide: usize) -> Vec<u8> {
    let mut b = header.to_vec();
    b.extend(var_int(txs.len() as u64, wide));
    for t in txs {
        b.extend(t.wire());
    }
    b
}
