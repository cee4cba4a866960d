use crate::core::*;
use crate::must;
use crate::wire::{sha256d, some_hash, some_script, Addr};
use bitcoin_indexer::address::Address;
use bitcoin_indexer::{base58, base58_check, base64, hex, reverse_hex};

const B58: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

/// big-endian base conversion by repeated long division; leading zeros kept one for one
fn rebase(input: &[u8], from: u32, to: u32) -> Vec<u8> {
    let zeros = input.iter().take_while(|b| **b == 0).count();
    let mut num: Vec<u32> = input[zeros..].iter().map(|b| *b as u32).collect();
    let mut out = Vec::new();
    while !num.is_empty() {
        let mut rem = 0u32;
        let mut q = Vec::new();
        for d in &num {
            let x = rem * from + d;
            if !q.is_empty() || x / to != 0 {
                q.push(x / to);
            }
            rem = x % to;
        }
        out.push(rem as u8);
        num = q;
    }
    out.extend(std::iter::repeat(0).take(zeros));
    out.reverse();
    out
}

pub fn ref_b58(input: &[u8]) -> Vec<u8> {
    rebase(input, 256, 58).iter().map(|d| B58[*d as usize]).collect()
}
pub fn ref_b58_bytes(text: &[u8]) -> Option<Vec<u8>> {
    let mut d = Vec::new();
    for c in text {
        d.push(B58.iter().position(|x| x == c)? as u8);
    }
    Some(rebase(&d, 58, 256))
}

/// byte strings: every one of up to two bytes first, then structured random ones
pub fn some_bytes(r: &mut Rng, index: u64) -> Vec<u8> {
    if index == 0 {
        return vec![];
    }
    if index <= 256 {
        return vec![(index - 1) as u8];
    }
    if index <= 256 + 65536 && index % 2 == 0 {
        let k = index - 257;
        return vec![(k >> 8) as u8, k as u8];
    }
    let len = match r.below(12) {
        0..=4 => r.below(12),
        5..=8 => r.below(48),
        9 | 10 => r.below(200),
        _ => r.below(1200),
    };
    let mut v = match r.below(8) {
        0 => vec![0u8; len],
        1 => vec![0xff; len],
        2 => {
            let b = r.byte();
            vec![b; len]
        }
        3 => (0..len).map(|_| if r.chance(1, 8) { r.byte() } else { 0 }).collect(),
        4 => (0..len).map(|_| if r.chance(1, 8) { r.byte() } else { 0xff }).collect(),
        _ => r.bytes(len),
    };
    if r.chance(1, 3) && !v.is_empty() {
        let z = match r.below(4) { 0 => 1, 1 => 2, _ => r.below(v.len() + 1) };
        for x in v.iter_mut().take(z) {
            *x = 0;
        }
    }
    if r.chance(1, 6) && !v.is_empty() {
        let z = r.below(v.len() + 1);
        for x in v.iter_mut().rev().take(z) {
            *x = 0;
        }
    }
    v
}

fn text_over(r: &mut Rng, index: u64, alphabet: &[u8]) -> Vec<u8> {
    let k = index / 3;
    if k < 58 * 58 {
        return vec![alphabet[(k / 58) as usize], alphabet[(k % 58) as usize]];
    }
    let len = match r.below(10) {
        0..=4 => r.below(14),
        5..=8 => r.below(70),
        _ => r.below(500),
    };
    let mut v: Vec<u8> = (0..len).map(|_| *r.pick(alphabet)).collect();
    if r.chance(1, 2) && !v.is_empty() {
        let z = r.below(v.len() + 1);
        for x in v.iter_mut().take(z) {
            *x = alphabet[0];
        }
    }
    if r.chance(1, 6) {
        let c = *r.pick(&[alphabet[0], alphabet[alphabet.len() - 1]]);
        v.iter_mut().for_each(|x| *x = c);
    }
    v
}

fn spoil(r: &mut Rng, v: &mut Vec<u8>, ok: impl Fn(u8) -> bool) {
    let n = r.range(1, 3);
    for _ in 0..n {
        let mut c = r.byte();
        if r.chance(1, 2) {
            c = *r.pick(b"0OIl -_=+/:;@[`{\x00\x7f\x80\xff.,gGzZ\n");
        }
        if ok(c) {
            continue;
        }
        let at = if v.is_empty() { 0 } else { *r.pick(&[0, v.len() - 1, v.len() / 2, r.clone().below(v.len())]) };
        if r.chance(1, 2) || v.is_empty() {
            v.insert(at, c);
        } else {
            v[at] = c;
        }
    }
}

fn buffer(r: &mut Rng, need: usize) -> Vec<u8> {
    let n = match r.below(8) {
        0 => need,
        1 => need.saturating_sub(1),
        2 => need + 1,
        3 => 0,
        4 => need + r.below(20),
        5 => r.below(need + 1),
        6 => need * 2 + 1,
        _ => need + 300,
    };
    match r.below(3) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => r.bytes(n),
    }
}

/// position and kind in an error about a character
fn names(e: &str, kind: &[&str], index: usize) -> bool {
    kind.iter().any(|k| e.starts_with(k)) && e.split(|c: char| !c.is_alphanumeric()).collect::<Vec<_>>().windows(3).any(|w| w[0] == "index" && w[2] == index.to_string() || w[0] == "index" && w[1] == index.to_string())
}
fn first_bad(text: &[u8], ok: impl Fn(u8) -> bool) -> Option<usize> {
    text.iter().position(|c| !ok(*c))
}

pub fn c01(r: &mut Rng, index: u64) -> Result<Case, String> {
    let is58 = |c: u8| B58.contains(&c);
    if index % 3 != 0 {
        let v = some_bytes(r, index / 3 * 2 + index % 3 - 1);
        note(format!("base58::encode({})", hx(&v)));
        let want = ref_b58(&v);
        let got = base58::encode(&v);
        must!(got.as_bytes() == &want[..], "base58::encode({}) = {:?}, expected {:?}", hx(&v), got, String::from_utf8_lossy(&want));
        note(format!("base58::decode({:?})", got));
        let back = base58::decode(&got);
        must!(back.as_ref().ok() == Some(&v), "base58::decode({:?}) = {:?}, expected {}", got, back, hx(&v));
        for _ in 0..2 {
            let mut b = buffer(r, want.len());
            let before = b.clone();
            note(format!("base58::encode_into({}, buffer {})", hx(&v), hx(&before)));
            let n = base58::encode_into(&v, &mut b);
            if before.len() >= want.len() {
                must!(matches!(n, Ok(n) if n == want.len()) && b[..want.len()] == want[..], "base58::encode_into({}, buffer of {} bytes {}) = {:?} {}, expected {}", hx(&v), before.len(), hx(&before), n, hx(&b), hx(&want));
                must!(b[want.len()..] == before[want.len()..], "base58::encode_into({}, buffer {}) changed the buffer beyond the text: {}", hx(&v), hx(&before), hx(&b));
            } else {
                must!(n.is_err(), "base58::encode_into({}, buffer of {} bytes) = {:?}, expected too small", hx(&v), before.len(), n);
            }
            let mut b = buffer(r, v.len());
            let before = b.clone();
            note(format!("base58::decode_into({}, buffer {})", got, hx(&before)));
            let n = base58::decode_into(&got, &mut b);
            if before.len() >= v.len() {
                must!(matches!(n, Ok(n) if n == v.len()) && b[..v.len()] == v[..], "base58::decode_into({:?}, buffer of {} bytes {}) = {:?} {}, expected {}", got, before.len(), hx(&before), n, hx(&b), hx(&v));
            } else {
                must!(matches!(&n, Err(e) if format!("{:?}", e).starts_with("BufferTooSmall")), "base58::decode_into({:?}, buffer of {} bytes) = {:?}, expected too small", got, before.len(), n);
            }
        }
        Ok(Case { nontrivial: v.len() > 1, text: format!("encode {}", hx(&v)) })
    } else {
        let mut t = text_over(r, index, B58);
        if r.chance(1, 2) {
            spoil(r, &mut t, is58);
        }
        note(format!("base58::decode({})", hx(&t)));
        let got = base58::decode(&t);
        match first_bad(&t, is58) {
            None => {
                let want = ref_b58_bytes(&t).unwrap();
                must!(got.as_ref().ok() == Some(&want), "base58::decode({:?}) = {:?}, expected {}", String::from_utf8_lossy(&t), got, hx(&want));
                let mut b = buffer(r, want.len());
                let before = b.clone();
                note(format!("base58::decode_into({}, buffer {})", hx(&t), hx(&before)));
                let n = base58::decode_into(&t, &mut b);
                if before.len() >= want.len() {
                    must!(matches!(n, Ok(n) if n == want.len()) && b[..want.len()] == want[..], "base58::decode_into({:?}, buffer of {} bytes {}) = {:?} {}, expected {}", String::from_utf8_lossy(&t), before.len(), hx(&before), n, hx(&b), hx(&want));
                } else {
                    must!(matches!(&n, Err(e) if format!("{:?}", e).starts_with("BufferTooSmall")), "base58::decode_into({:?}, buffer of {} bytes) = {:?}, expected too small", String::from_utf8_lossy(&t), before.len(), n);
                }
            }
            Some(i) => {
                let kind = if t[i] < 128 { "InvalidCharacter" } else { "NonAsciiCharacter" };
                let e = match got {
                    Ok(v) => return Err(format!("base58::decode({}) = Ok({}), expected an error at {}", hx(&t), hx(&v), i)),
                    Err(e) => format!("{:?}", e),
                };
                must!(names(&e, &[kind], i), "base58::decode({}) = {}, expected {} at {}", hx(&t), e, kind, i);
                let mut b = vec![7u8; t.len()];
                let n = base58::decode_into(&t, &mut b);
                must!(matches!(&n, Err(e) if names(&format!("{:?}", e), &[kind], i)), "base58::decode_into({}, {} bytes) = {:?}, expected {} at {}", hx(&t), t.len(), n, kind, i);
            }
        }
        Ok(Case { nontrivial: t.len() > 1, text: format!("decode {}", String::from_utf8_lossy(&t)) })
    }
}

fn ref_addr(text: &[u8]) -> Option<Address> {
    let b = ref_b58_bytes(text)?;
    if b.len() != 25 || sha256d(&b[..21])[..4] != b[21..] {
        return None;
    }
    let mut h = [0; 20];
    h.copy_from_slice(&b[1..21]);
    match b[0] {
        0 => Some(Address::P2PKH(h)),
        5 => Some(Address::P2SH(h)),
        _ => None,
    }
}
pub fn parts(a: &Address) -> (u8, [u8; 20]) {
    match a {
        Address::P2PKH(h) => (0, *h),
        Address::P2SH(h) => (5, *h),
    }
}
fn known(a: Option<Addr>) -> Option<Address> {
    a.map(|(v, h)| if v == 0 { Address::P2PKH(h) } else { Address::P2SH(h) })
}
pub fn same(a: &Option<Address>, b: &Option<Address>) -> bool {
    a.as_ref().map(parts) == b.as_ref().map(parts)
}
fn show(a: &Option<Address>) -> String {
    match a {
        None => "none".into(),
        Some(a) => {
            let (v, h) = parts(a);
            format!("version {} hash {}", v, hx(&h))
        }
    }
}
pub fn some_address(r: &mut Rng) -> Address {
    let h = some_hash(r);
    if r.chance(1, 2) { Address::P2PKH(h) } else { Address::P2SH(h) }
}

pub fn c02(r: &mut Rng, _index: u64) -> Result<Case, String> {
    match r.below(4) {
        0 => {
            let a = some_address(r);
            let (v, h) = parts(&a);
            let mut b = vec![v];
            b.extend(h);
            let c = sha256d(&b);
            b.extend(&c[..4]);
            let want = ref_b58(&b);
            note(format!("Address to_string version {} hash {}", v, hx(&h)));
            let got = a.to_string();
            must!(got.as_bytes() == &want[..], "address version {} hash {}: text {:?}, expected {:?}", v, hx(&h), got, String::from_utf8_lossy(&want));
            must!(format!("{}", a) == got, "address version {} hash {}: displayed as {}, expected {}", v, hx(&h), a, got);
            note(format!("Address::from_string({:?})", got));
            let back = Address::from_string(&got);
            must!(matches!(&back, Ok(x) if parts(x) == (v, h)), "Address::from_string({:?}) fails or differs", got);
            Ok(Case { nontrivial: true, text: got })
        }
        1 => {
            // any payload, encoded with a checksum that is right or nearly right
            let n = *r.pick(&[0usize, 1, 4, 20, 21, 21, 21, 21, 21, 22, 24, 25, 33, 60]);
            let mut b = r.bytes(n);
            if !b.is_empty() && r.chance(3, 4) {
                b[0] = *r.pick(&[0u8, 5, 0, 5, 1, 4, 6, 111, 196, 128]);
            }
            let c = sha256d(&b);
            let payload = b.clone();
            b.extend(&c[..4]);
            let mut good = true;
            if r.chance(1, 2) {
                let k = r.below(b.len());
                b[k] ^= 1 << r.below(8);
                good = false;
            }
            if r.chance(1, 8) {
                b.truncate(r.below(b.len() + 1));
                good = false;
            }
            let t = String::from_utf8(ref_b58(&b)).unwrap();
            note(format!("Address::from_string({:?})", t));
            let got = Address::from_string(&t).ok();
            let want = ref_addr(t.as_bytes());
            must!(same(&got, &want), "Address::from_string({:?}) = {}, expected {}", t, show(&got), show(&want));
            note(format!("base58_check::decode({:?})", t));
            let d = base58_check::decode(&t);
            let ok = b.len() >= 4 && sha256d(&b[..b.len() - 4])[..4] == b[b.len() - 4..];
            must!(if ok { d.as_ref().ok().map(|x| &x[..]) == Some(&b[..b.len() - 4]) } else { d.is_err() }, "base58_check::decode({:?}) = {:?}, bytes {}, checksum {}", t, d, hx(&b), ok);
            if good {
                note(format!("base58_check::encode({})", hx(&payload)));
                let e = base58_check::encode(&payload);
                must!(e == t, "base58_check::encode({}) = {}, expected {}", hx(&payload), e, t);
                let mut buf = buffer(r, t.len());
                let before = buf.clone();
                let n = base58_check::encode_into(&payload, &mut buf);
                must!(if before.len() >= t.len() { matches!(n, Ok(n) if n == t.len()) && buf[..t.len()] == *t.as_bytes() } else { n.is_err() }, "base58_check::encode_into({}, {} bytes) = {:?}", hx(&payload), before.len(), n);
                let mut buf = buffer(r, b.len());
                let before = buf.clone();
                let n = base58_check::decode_into(&t, &mut buf);
                must!(if before.len() >= b.len() { matches!(n, Ok(n) if n == payload.len()) && buf[..payload.len()] == payload[..] } else { n.is_err() }, "base58_check::decode_into({}, {} bytes) = {:?}", t, before.len(), n);
            }
            Ok(Case { nontrivial: !got.is_none() || b.len() == 25, text: t })
        }
        2 => {
            // a real address with its text edited
            let a = some_address(r);
            let (v, h) = parts(&a);
            let mut b = vec![v];
            b.extend(h);
            let c = sha256d(&b);
            b.extend(&c[..4]);
            let mut t: Vec<char> = String::from_utf8(ref_b58(&b)).unwrap().chars().collect();
            for _ in 0..r.range(1, 2) {
                let at = r.below(t.len());
                match r.below(6) {
                    0 => t[at] = *r.pick(B58) as char,
                    1 => {
                        t.remove(at);
                    }
                    2 => t.insert(at, *r.pick(B58) as char),
                    3 => t.insert(0, '1'),
                    4 => t[at] = *r.pick(&['0', 'O', 'I', 'l', ' ', 'é', '€', '\u{80}', '\u{10ffff}']),
                    _ => t.swap(at, 0),
                }
            }
            let t: String = t.into_iter().collect();
            note(format!("Address::from_string({:?})", t));
            let got = Address::from_string(&t).ok();
            let want = ref_addr(t.as_bytes());
            must!(same(&got, &want), "Address::from_string({:?}) = {}, expected {}", t, show(&got), show(&want));
            Ok(Case { nontrivial: true, text: t })
        }
        _ => {
            let n = r.below(40);
            let t: String = (0..n).map(|_| char::from_u32(if r.chance(3, 4) { 32 + r.below(96) as u32 } else { r.below(0xd000) as u32 }).unwrap()).collect();
            note(format!("Address::from_string({:?})", t));
            let got = Address::from_string(&t).ok();
            let want = ref_addr(t.as_bytes());
            must!(same(&got, &want), "Address::from_string({:?}) = {}, expected {}", t, show(&got), show(&want));
            Ok(Case { nontrivial: n > 0, text: t })
        }
    }
}

pub fn c03(r: &mut Rng, index: u64) -> Result<Case, String> {
    let rev = index % 2 == 1;
    let ishex = |c: u8| c.is_ascii_hexdigit();
    let v = some_bytes(r, index / 2);
    let mut want: String = v.iter().map(|b| format!("{:02x}", b)).collect();
    let mut w = v.clone();
    if rev {
        w.reverse();
        want = w.iter().map(|b| format!("{:02x}", b)).collect();
    }
    let name = if rev { "reverse_hex" } else { "hex" };
    note(format!("{}::encode({})", name, hx(&v)));
    let got = if rev { reverse_hex::encode(&v) } else { hex::encode(&v) };
    must!(got == want, "{}::encode({}) = {}, expected {}", name, hx(&v), got, want);
    let mut t: Vec<u8> = want.bytes().map(|c| if r.chance(1, 3) { c.to_ascii_uppercase() } else { c }).collect();
    match r.below(4) {
        0 => spoil(r, &mut t, ishex),
        1 if r.chance(1, 2) => {
            t.pop();
        }
        _ => {}
    }
    if index / 2 < 65536 && index % 4 < 2 && r.chance(1, 2) {
        // every pair of bytes
        let k = index / 2;
        t = vec![(k >> 8) as u8, k as u8];
    }
    let decode = |t: &[u8]| if rev { reverse_hex::decode(t) } else { hex::decode(t) };
    let decode_into = |t: &[u8], b: &mut Vec<u8>| if rev { reverse_hex::decode_into(t, b) } else { hex::decode_into(t, b) };
    note(format!("{}::decode({})", name, hx(&t)));
    let got = decode(&t);
    let bad = first_bad(&t, ishex);
    let need = t.len() / 2;
    let mut b = buffer(r, need);
    let before = b.clone();
    note(format!("{}::decode_into({}, buffer {})", name, hx(&t), hx(&before)));
    let n = decode_into(&t, &mut b);
    let ge = got.as_ref().err().map(|e| format!("{:?}", e)).unwrap_or_default();
    let ne = n.as_ref().err().map(|e| format!("{:?}", e)).unwrap_or_default();
    if t.len() % 2 != 0 {
        must!(got.is_err() && (bad.is_some() || ge == "OddLength"), "{}::decode({:?}) = {:?}, expected odd length", name, String::from_utf8_lossy(&t), got);
        must!(n.is_err() && (bad.is_some() || before.len() < need || ne == "OddLength"), "{}::decode_into({:?}) = {:?}, expected odd length", name, String::from_utf8_lossy(&t), n);
    } else if let Some(i) = bad {
        must!(names(&ge, &["InvalidHexCharacter"], i), "{}::decode({:?}) = {:?}, expected an error at {}", name, String::from_utf8_lossy(&t), got, i);
        if before.len() >= need {
            must!(names(&ne, &["InvalidHexCharacter"], i), "{}::decode_into({:?}) = {:?}, expected an error at {}", name, String::from_utf8_lossy(&t), n, i);
        } else {
            must!(n.is_err(), "{}::decode_into({:?}) = {:?}, expected an error", name, String::from_utf8_lossy(&t), n);
        }
    } else {
        let hv = |c: u8| (c as char).to_digit(16).unwrap() as u8;
        let mut want: Vec<u8> = t.chunks(2).map(|p| hv(p[0]) * 16 + hv(p[1])).collect();
        if rev {
            want.reverse();
        }
        must!(got.as_ref().ok() == Some(&want), "{}::decode({:?}) = {:?}, expected {}", name, String::from_utf8_lossy(&t), got, hx(&want));
        if before.len() >= need {
            must!(n.as_ref().ok() == Some(&need) && b[..need] == want[..], "{}::decode_into({:?}, buffer {}) = {:?} {}, expected {}", name, String::from_utf8_lossy(&t), hx(&before), n, hx(&b), hx(&want));
        } else {
            must!(ne == "BufferTooSmall", "{}::decode_into({:?}, {} bytes) = {:?}, expected too small", name, String::from_utf8_lossy(&t), before.len(), n);
        }
    }
    must!(b.len() == before.len() && b[need.min(b.len())..] == before[need.min(b.len())..], "{}::decode_into({:?}, buffer {}) changed bytes beyond the result: {}", name, String::from_utf8_lossy(&t), hx(&before), hx(&b));
    Ok(Case { nontrivial: t.len() > 1, text: format!("{} {}", name, String::from_utf8_lossy(&t)) })
}

fn ref_b64(v: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    for c in v.chunks(3) {
        let x = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            out.push(if k <= c.len() { B64[(x >> (18 - 6 * k)) as usize & 63] } else { b'=' });
        }
    }
    out
}

pub fn c04(r: &mut Rng, index: u64) -> Result<Case, String> {
    let is64 = |c: u8| B64.contains(&c) || c == b'=';
    let v = some_bytes(r, index);
    let want = ref_b64(&v);
    note(format!("base64::encode({})", hx(&v)));
    let got = base64::encode(&v);
    must!(got.as_bytes() == &want[..], "base64::encode({}) = {:?}, expected {:?}", hx(&v), got, String::from_utf8_lossy(&want));
    note(format!("base64::decode({:?})", got));
    let back = base64::decode(&got);
    must!(back.as_ref().ok() == Some(&v), "base64::decode({:?}) = {:?}, expected {}", got, back, hx(&v));
    for _ in 0..2 {
        let mut b = buffer(r, want.len());
        let before = b.clone();
        note(format!("base64::encode_into({}, buffer {})", hx(&v), hx(&before)));
        let n = base64::encode_into(&v, &mut b);
        if before.len() >= want.len() {
            must!(matches!(n, Ok(n) if n == want.len()) && b[..want.len()] == want[..], "base64::encode_into({}, {} bytes) = {:?} {}, expected {}", hx(&v), before.len(), n, hx(&b), hx(&want));
        } else {
            must!(n.is_err(), "base64::encode_into({}, {} bytes) = {:?}, expected too small", hx(&v), before.len(), n);
        }
        let mut b = buffer(r, v.len());
        let before = b.clone();
        note(format!("base64::decode_into({}, buffer {})", got, hx(&before)));
        let n = base64::decode_into(&got, &mut b);
        if before.len() >= v.len() {
            must!(matches!(n, Ok(n) if n == v.len()) && b[..v.len()] == v[..], "base64::decode_into({:?}, {} bytes) = {:?} {}, expected {}", got, before.len(), n, hx(&b), hx(&v));
        } else {
            must!(matches!(&n, Err(e) if format!("{:?}", e).starts_with("BufferTooSmall")), "base64::decode_into({:?}, {} bytes) = {:?}, expected too small", got, before.len(), n);
        }
    }
    let mut t = want.clone();
    spoil(r, &mut t, is64);
    if let Some(i) = first_bad(&t, is64) {
        let kind = if t[i] < 128 { "InvalidCharacter" } else { "NonAsciiCharacter" };
        note(format!("base64::decode({})", hx(&t)));
        let e = match base64::decode(&t) {
            Ok(v) => return Err(format!("base64::decode({}) = Ok({}), expected an error at {}", hx(&t), hx(&v), i)),
            Err(e) => format!("{:?}", e),
        };
        must!(names(&e, &[kind], i), "base64::decode({}) = {}, expected {} at {}", hx(&t), e, kind, i);
    }
    Ok(Case { nontrivial: v.len() > 1, text: got })
}

pub fn c05(r: &mut Rng, _index: u64) -> Result<Case, String> {
    if r.chance(2, 3) {
        let s = some_script(r);
        note(format!("Address::from_script({})", hx(&s)));
        let got = Address::from_script(&s).ok();
        let want = known(crate::wire::ref_script(&s));
        must!(same(&got, &want), "Address::from_script({}) = {}, expected {}", hx(&s), show(&got), show(&want));
        Ok(Case { nontrivial: !s.is_empty(), text: hx(&s) })
    } else {
        let n = if r.chance(3, 4) { 21 } else { r.below(40) };
        let mut b = r.bytes(n);
        if n > 0 && r.chance(3, 4) {
            b[0] = *r.pick(&[0u8, 5, 0, 5, 1, 4, 6, 111, 196, 255]);
        }
        note(format!("Address::from_slice({})", hx(&b)));
        let got = Address::from_slice(&b).ok();
        let want = if b.len() == 21 && (b[0] == 0 || b[0] == 5) {
            let mut h = [0; 20];
            h.copy_from_slice(&b[1..]);
            Some(if b[0] == 0 { Address::P2PKH(h) } else { Address::P2SH(h) })
        } else {
            None
        };
        must!(same(&got, &want), "Address::from_slice({}) = {}, expected {}", hx(&b), show(&got), show(&want));
        if let Some(a) = &got {
            let v = a.to_vec();
            must!(v == b, "Address stored form {}, expected {}", hx(&v), hx(&b));
        }
        Ok(Case { nontrivial: n > 0, text: hx(&b) })
    }
}
