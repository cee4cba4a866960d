//! C22, C25, C26: requests over HTTP on the loopback interface, to the real service and to routers made up here.
use crate::chain::*;
use crate::core::*;
use crate::must;
use crate::node::{self, Model, NODE};
use crate::wire::*;
use bitcoin_indexer::create_server::create_server;
use bitcoin_indexer::server::Server;
use bitcoin_indexer::state::State;
use hyper::{Body, Response};
use serde_json::Value;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

const SUPPLY: u64 = 2_100_000_000_000_000;
const DIGITS: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

// ---- addresses as text
fn to_text(a: &Addr) -> String {
    let mut b = vec![a.0];
    b.extend(a.1);
    let c = sha256d(&b);
    b.extend(&c[..4]);
    let mut digits: Vec<u8> = vec![];
    for &x in &b {
        let mut carry = x as u32;
        for d in digits.iter_mut() {
            carry += (*d as u32) << 8;
            *d = (carry % 58) as u8;
            carry /= 58;
        }
        while carry > 0 {
            digits.push((carry % 58) as u8);
            carry /= 58;
        }
    }
    let zeros = b.iter().take_while(|x| **x == 0).count();
    std::iter::repeat('1').take(zeros).chain(digits.iter().rev().map(|d| DIGITS[*d as usize] as char)).collect()
}
fn of_text(t: &str) -> Option<Addr> {
    let mut b: Vec<u8> = vec![];
    for x in t.bytes() {
        let mut carry = DIGITS.iter().position(|d| *d == x)? as u32;
        for y in b.iter_mut() {
            carry += *y as u32 * 58;
            *y = carry as u8;
            carry >>= 8;
        }
        while carry > 0 {
            b.push(carry as u8);
            carry >>= 8;
        }
    }
    b.extend(t.bytes().take_while(|x| *x == b'1').map(|_| 0));
    b.reverse();
    if b.len() != 25 || sha256d(&b[..21])[..4] != b[21..] || (b[0] != 0 && b[0] != 5) {
        return None;
    }
    let mut h = [0; 20];
    h.copy_from_slice(&b[1..21]);
    Some((b[0], h))
}

// ---- a server, for as long as the value lives
struct Site {
    port: u16,
    task: tokio::task::JoinHandle<()>,
}
thread_local! {
    static SERVING: tokio::runtime::Runtime = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
}
fn on_runtime<F: std::future::Future>(f: F) -> F::Output {
    SERVING.with(|r| r.block_on(f))
}
static NEXT_PORT: AtomicU32 = AtomicU32::new(0);
impl Site {
    fn new<S: 'static + Send + Sync>(make: impl Fn() -> Server<S>) -> Result<Self, String> {
        for _ in 0..200 {
            let k = NEXT_PORT.fetch_add(1, Ordering::SeqCst).wrapping_add(std::process::id().wrapping_mul(97));
            let port = (12_000 + k % 19_000) as u16;
            match TcpListener::bind(("127.0.0.1", port)) {
                Ok(l) => drop(l),
                Err(_) => continue,
            }
            let task = SERVING.with(|r| r.spawn(make().run(SocketAddr::from(([127, 0, 0, 1], port)))));
            let end = Instant::now() + Duration::from_secs(20);
            while !task.is_finished() && Instant::now() < end {
                if TcpStream::connect(("127.0.0.1", port)).is_ok() && !task.is_finished() {
                    return Ok(Site { port, task });
                }
                std::thread::sleep(Duration::from_micros(200));
            }
            task.abort();
        }
        Err("Server::run does not listen at the address it is given".into())
    }
    fn connect(&self) -> Result<Line, String> {
        let s = TcpStream::connect(("127.0.0.1", self.port)).map_err(|e| format!("no connection to the server: {}", e))?;
        s.set_nodelay(true).unwrap();
        s.set_read_timeout(Some(Duration::from_secs(30))).unwrap();
        Ok(Line { w: s.try_clone().unwrap(), r: BufReader::new(s) })
    }
}
impl Drop for Site {
    fn drop(&mut self) {
        self.task.abort();
    }
}
struct Line {
    w: TcpStream,
    r: BufReader<TcpStream>,
}
enum Sent {
    Nothing,
    Plain(Vec<u8>),
    Chunks(Vec<Vec<u8>>),
}
impl Sent {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Sent::Nothing => vec![],
            Sent::Plain(b) => b.clone(),
            Sent::Chunks(c) => c.concat(),
        }
    }
    fn some(r: &mut Rng, b: Vec<u8>) -> Self {
        if b.is_empty() && r.chance(1, 2) {
            Sent::Nothing
        } else if r.chance(1, 2) {
            Sent::Plain(b)
        } else {
            let (mut rest, mut c) = (&b[..], vec![]);
            while !rest.is_empty() {
                let most = if r.chance(1, 2) { 7 } else { 5000 };
                let k = 1 + r.below(rest.len().min(most));
                c.push(rest[..k].to_vec());
                rest = &rest[k..];
            }
            Sent::Chunks(c)
        }
    }
}
impl Line {
    fn ask(&mut self, method: &str, target: &str, sent: &Sent) -> Result<(u16, Vec<u8>), String> {
        self.try_ask(method, target, sent).map_err(|e| format!("{} {}: no answer ({})", method, target, e))
    }
    fn try_ask(&mut self, method: &str, target: &str, sent: &Sent) -> std::io::Result<(u16, Vec<u8>)> {
        let bad = |s: &str| std::io::Error::new(std::io::ErrorKind::Other, s.to_string());
        let mut m = format!("{} {} HTTP/1.1\r\nHost: localhost\r\n", method, target).into_bytes();
        match sent {
            Sent::Nothing => m.extend(b"\r\n"),
            Sent::Plain(b) => {
                m.extend(format!("Content-Length: {}\r\n\r\n", b.len()).bytes());
                m.extend(b);
            }
            Sent::Chunks(c) => {
                m.extend(b"Transfer-Encoding: chunked\r\n\r\n");
                for x in c {
                    m.extend(format!("{:x}\r\n", x.len()).bytes());
                    m.extend(x);
                    m.extend(b"\r\n");
                }
                m.extend(b"0\r\n\r\n");
            }
        }
        self.w.write_all(&m)?;
        let mut line = String::new();
        self.r.read_line(&mut line)?;
        let status: u16 = line.split(' ').nth(1).and_then(|x| x.parse().ok()).ok_or_else(|| bad(if line.is_empty() { "the connection was closed" } else { "no status line" }))?;
        let mut n = 0;
        loop {
            let mut line = String::new();
            self.r.read_line(&mut line)?;
            if line.trim().is_empty() {
                break;
            }
            if let Some((k, v)) = line.split_once(':') {
                if k.eq_ignore_ascii_case("content-length") {
                    n = v.trim().parse().map_err(|_| bad("content-length"))?;
                }
            }
        }
        let mut body = vec![0; if method == "HEAD" { 0 } else { n }];
        self.r.read_exact(&mut body)?;
        Ok((status, body))
    }
}

// ---- what a request is answered with, from the text of C22, C25 and C26
enum Want {
    NotFound,
    Refused,
    Balance(Addr, usize),
    Utxos(Addr, usize),
    Balances(Vec<Addr>, usize),
    UtxoLists(Vec<Addr>, usize),
}
fn query(q: Option<&str>) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for p in q.iter().flat_map(|q| q.split('&')) {
        let (k, v) = p.split_once('=').unwrap_or((p, ""));
        m.insert(k.to_string(), v.to_string());
    }
    m
}
/// Some(None): refused
fn confirmations(p: &BTreeMap<String, String>, n: usize) -> Option<usize> {
    match p.get("confirmations") {
        None => Some(0),
        Some(t) if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) => None,
        Some(t) => {
            let t = t.trim_start_matches('0');
            if t.len() > 9 { None } else { t.parse::<usize>().or(if t.is_empty() { Ok(0) } else { Err(()) }).ok().filter(|c| *c <= n) }
        }
    }
}
fn want(method: &str, path: &str, q: Option<&str>, body: &[u8], n: usize) -> Want {
    let p = query(q);
    let c = confirmations(&p, n);
    let seg: Vec<&str> = path.split('/').collect();
    let lists = |l: Option<Vec<Addr>>, last: &str| match (l, c) {
        (Some(l), Some(c)) => if last == "balance" { Want::Balances(l, c) } else { Want::UtxoLists(l, c) },
        _ => Want::Refused,
    };
    match (method, &seg[..]) {
        ("GET", ["", "addresses", last @ ("balance" | "utxos")]) => {
            let l = p.get("addresses").and_then(|t| t.split(',').map(of_text).collect());
            lists(l, last)
        }
        ("POST", ["", "addresses", last @ ("balance" | "utxos")]) => {
            let l = serde_json::from_slice::<Value>(body).ok().and_then(|v| v.as_array().cloned()).and_then(|l| l.iter().map(|x| x.as_str().and_then(of_text)).collect());
            lists(l, last)
        }
        ("GET", ["", "addresses", a, last @ ("balance" | "utxos")]) => match (of_text(a), c) {
            (Some(a), Some(c)) => if *last == "balance" { Want::Balance(a, c) } else { Want::Utxos(a, c) },
            _ => Want::Refused,
        },
        _ => Want::NotFound,
    }
}
fn amount(v: &Value, sats: u64, what: &str) -> Result<(), String> {
    must!(v.is_number(), "{}: the amount is {}", what, v);
    if sats <= SUPPLY {
        let f = v.as_f64().unwrap();
        let got = (f * 1e8).round();
        must!(got == sats as f64, "{}: {} bitcoin, expected {} satoshis", what, v, sats);
    }
    Ok(())
}
fn only(v: &Value, keys: &[&str], what: &str) -> Result<(), String> {
    let o = v.as_object();
    must!(o.map(|o| o.len() == keys.len() && keys.iter().all(|k| o.contains_key(*k))).unwrap_or(false), "{}: {} does not have members {:?}", what, v, keys);
    Ok(())
}
fn utxos(v: &Value, m: &BTreeMap<Out, u64>, what: &str) -> Result<(), String> {
    must!(v.is_array(), "{}: no list but {}", what, v);
    let l = v.as_array().unwrap();
    let mut seen = std::collections::BTreeSet::new();
    for x in l {
        only(x, &["hash", "vout", "value"], what)?;
        let h = x["hash"].as_str().and_then(node::unflip);
        let i = x["vout"].as_u64().and_then(|i| u32::try_from(i).ok());
        must!(h.is_some() && i.is_some(), "{}: {} names no output", what, x);
        let o = (h.unwrap(), i.unwrap());
        must!(seen.insert(o), "{}: {} is listed twice", what, x);
        must!(m.contains_key(&o), "{}: {} is listed", what, x);
        amount(&x["value"], m[&o], &format!("{}: {}:{}", what, hx(&o.0), o.1))?;
    }
    must!(l.len() == m.len(), "{}: {} outputs, expected {}", what, l.len(), m.len());
    Ok(())
}
/// true: answered with something that is not nothing
fn check(w: &Want, got: &(u16, Vec<u8>), m: &Model, what: &str) -> Result<bool, String> {
    let text = String::from_utf8_lossy(&got.1).chars().take(300).collect::<String>();
    let what = format!("{} -> {} {}", what, got.0, text);
    let json = |what: &str| -> Result<Value, String> { serde_json::from_slice(&got.1).map_err(|e| format!("{}: no JSON: {}", what, e)) };
    let listing = |a: &Addr, c: usize| by_addr(&m.view(c), a);
    let balance = |v: &Value, a: &Addr, c: usize| match node::total(&listing(a, c)) {
        Some(t) => amount(v, t, &format!("{}: balance of {} at {}", what, to_text(a), c)),
        None => Ok(()),
    };
    match w {
        Want::NotFound => {
            must!(got.0 == 404, "{}: expected 404", what);
            return Ok(false);
        }
        Want::Refused => {
            must!(got.0 == 400, "{}: expected an error", what);
            return Ok(false);
        }
        _ => must!(got.0 == 200, "{}: expected an answer", what),
    }
    let v = json(&what)?;
    match w {
        Want::Balance(a, c) => {
            balance(&v, a, *c)?;
            return Ok(!listing(a, *c).is_empty());
        }
        Want::Utxos(a, c) => {
            let l = listing(a, *c);
            utxos(&v, &l, &what)?;
            return Ok(!l.is_empty());
        }
        Want::Balances(l, c) | Want::UtxoLists(l, c) => {
            let member = if matches!(w, Want::Balances(..)) { "balance" } else { "utxos" };
            must!(v.as_array().map(|x| x.len()) == Some(l.len()), "{}: expected {} entries", what, l.len());
            for (i, a) in l.iter().enumerate() {
                only(&v[i], &["address", member], &what)?;
                must!(v[i]["address"] == Value::from(to_text(a)), "{}: entry {} is not for {}", what, i, to_text(a));
                if member == "balance" {
                    balance(&v[i][member], a, *c)?;
                } else {
                    utxos(&v[i][member], &listing(a, *c), &what)?;
                }
            }
            return Ok(!l.is_empty());
        }
        _ => {}
    }
    Ok(false)
}

// ---- the real service, after some updates
struct Service {
    m: Model,
    n: usize,
    site: Site,
    addrs: Vec<Addr>,
}
impl Service {
    fn new(r: &mut Rng, values: fn(&mut Rng) -> u64) -> Result<Self, String> {
        let (mut m, store) = node::start_with(r, values);
        let n = 1 + r.below(5);
        let s = State::new(store, NODE.with(|n| n.client()), n);
        for _ in 0..1 + r.below(3) {
            let (floor, least) = (m.stored.len(), m.stored.len() + n - 1);
            m.turn(r, floor, least, n);
            on_runtime(s.update());
            let log = NODE.with(|n| n.take_log())?;
            m.follow(&log)?;
            m.known = m.pool.iter().cloned().filter(|h| m.known.contains(h) || !m.withheld.contains(h)).collect();
            let out = m.recent.len().saturating_sub(n - 1);
            let old: Vec<H32> = m.recent.drain(..out).collect();
            m.stored.extend(old);
        }
        let txs: Vec<MTx> = m.txs.values().cloned().collect();
        let mut addrs = addresses(&txs, &m.people);
        addrs.push(some_addr(r));
        // what adds up to more than there can be is not asked for
        let fine = |a: &Addr| (0..=n).all(|c| node::total(&by_addr(&m.view(c), a)).is_some());
        addrs.retain(fine);
        let s = Arc::new(s);
        let site = Site::new(|| create_server(s.clone()))?;
        Ok(Service { m, n, site, addrs })
    }
    fn ask(&self, l: &mut Line, method: &str, path: &str, q: Option<&str>, sent: &Sent) -> Result<bool, String> {
        let target = match q {
            Some(q) => format!("{}?{}", path, q),
            None => path.to_string(),
        };
        let what = format!("{} {} {:?} ({} confirmations kept)", method, target, String::from_utf8_lossy(&sent.bytes()).chars().take(200).collect::<String>(), self.n);
        note(what.clone());
        let got = l.ask(method, &target, sent)?;
        check(&want(method, path, q, &sent.bytes(), self.n), &got, &self.m, &what)
    }
    fn some_text(&self, r: &mut Rng) -> String {
        let t = to_text(r.pick(&self.addrs));
        if !r.chance(1, 10) {
            return t;
        }
        match r.below(6) {
            0 => String::new(),
            1 => t[1..].to_string(),
            2 => format!("1{}", t),
            3 => format!("{}1", t),
            4 => {
                let mut b = t.into_bytes();
                let i = r.below(b.len());
                b[i] = *r.pick(DIGITS);
                String::from_utf8(b).unwrap()
            }
            _ => t.to_lowercase(),
        }
    }
}
fn some_confirmations(r: &mut Rng, n: usize) -> String {
    match r.below(16) {
        0 => n + 1,
        1 => n + 2 + r.below(300),
        2 => return String::new(),
        3 => return format!("-{}", r.below(3)),
        4 => return format!("{}{}", r.below(n + 1), r.pick(&["e0", ".0", "x", "%20", "_", "h", ",", ";1", "/1", "'", "!"])),
        5 => return format!("{}{}", "0".repeat(1 + r.below(30)), r.below(n + 3)),
        6 => return r.pick(&["18446744073709551615", "18446744073709551616", "18446744073709551617", "4294967296", "4294967297", "256", "257", "65536", "99999999999999999999999"]).to_string(),
        7 => return r.pick(&["true", "null", "NaN", "0x1", "all", "%31", "=1", "1=", "=="]).to_string(),
        _ => r.below(n + 1),
    }
    .to_string()
}
fn some_query(r: &mut Rng, n: usize, addresses: Option<String>) -> Option<String> {
    let mut v: Vec<String> = addresses.into_iter().map(|a| format!("addresses={}", a)).collect();
    match r.below(12) {
        0 => {}
        1 => v.push("confirmations".into()),
        2 => v.push(format!("{}={}", r.pick(&["Confirmations", "confirmation", "confirmations ", "CONFIRMATIONS", "confirmations%20", "minconf"]).trim(), some_confirmations(r, n))),
        3 => v.extend([format!("confirmations={}", some_confirmations(r, n)), format!("confirmations={}", some_confirmations(r, n))]),
        _ => v.push(format!("confirmations={}", some_confirmations(r, n))),
    }
    for _ in 0..if r.chance(1, 4) { 1 + r.below(2) } else { 0 } {
        v.push(r.pick(&["x=1", "", "=", "a=b=c", "address=1", "x", "addresses2=3"]).to_string());
    }
    r.shuffle(&mut v);
    if v.is_empty() && r.chance(3, 4) { None } else { Some(v.join("&")) }
}
fn requests(r: &mut Rng, s: &Service, k: usize) -> Result<(usize, usize), String> {
    let mut l = s.site.connect()?;
    let (mut asked, mut found) = (0, 0);
    for _ in 0..k {
        let last = *r.pick(&["balance", "utxos"]);
        let list: Vec<String> = (0..r.below(5)).map(|_| s.some_text(r)).collect();
        let (method, path, q, sent) = match r.below(4) {
            0 => ("GET", format!("/addresses/{}", last), some_query(r, s.n, Some(list.join(","))), Sent::Nothing),
            1 => {
                let b = serde_json::to_vec(&list).unwrap();
                ("POST", format!("/addresses/{}", last), some_query(r, s.n, None), Sent::some(r, b))
            }
            _ => ("GET", format!("/addresses/{}/{}", s.some_text(r), last), some_query(r, s.n, None), Sent::Nothing),
        };
        found += s.ask(&mut l, method, &path, q.as_deref(), &sent)? as usize;
        asked += 1;
    }
    Ok((asked, found))
}
pub fn c22(r: &mut Rng, _i: u64) -> Result<Case, String> {
    let s = Service::new(r, some_value)?;
    let k = 20 + r.below(60);
    let (asked, found) = requests(r, &s, k)?;
    Ok(Case { nontrivial: found > 0, text: format!("{} kept, {} requests, {} with something {}", s.n, asked, found, hx(&s.m.tip()[..6])) })
}
fn money(r: &mut Rng) -> u64 {
    match r.below(7) {
        0 => SUPPLY - r.below(1000) as u64,
        1 => r.below(1000) as u64,
        2 => r.below(20_000_000) as u64 * 100_000_000 + r.below(3) as u64,
        3 => (1u64 << r.below(51)).saturating_sub(r.below(2) as u64),
        4 => r.next() % 100_000_000,
        5 => r.next() % 5_000_000_000,
        _ => r.next() % (SUPPLY + 1),
    }
}
pub fn c25(r: &mut Rng, _i: u64) -> Result<Case, String> {
    let s = Service::new(r, money)?;
    let mut l = s.site.connect()?;
    let all: Vec<String> = s.addrs.iter().take(60).map(to_text).collect();
    let mut found = 0;
    for c in 0..=s.n {
        for last in ["balance", "utxos"] {
            let q = format!("addresses={}&confirmations={}", all.join(","), c);
            found += s.ask(&mut l, "GET", &format!("/addresses/{}", last), Some(&q), &Sent::Nothing)? as usize;
            let b = Sent::Plain(serde_json::to_vec(&all).unwrap());
            found += s.ask(&mut l, "POST", &format!("/addresses/{}", last), Some(&format!("confirmations={}", c)), &b)? as usize;
            for a in all.iter().take(8) {
                found += s.ask(&mut l, "GET", &format!("/addresses/{}/{}", a, last), Some(&format!("confirmations={}", c)), &Sent::Nothing)? as usize;
            }
        }
    }
    Ok(Case { nontrivial: found > 0, text: format!("{} addresses, {} answers {}", all.len(), found, hx(&s.m.tip()[..6])) })
}

// ---- C26
const PLAIN: &[u8] = b"abcXYZ019-._~!$&'()*+,;=:@|^[]\\";
fn word(r: &mut Rng, n: usize) -> String {
    let k = r.below(n);
    (0..k).map(|_| *r.pick(PLAIN) as char).collect()
}
/// a segment: text, or text around a hole
#[derive(Clone)]
struct Piece(String, Option<(String, String)>);
impl Piece {
    fn shown(&self) -> String {
        match &self.1 {
            None => self.0.clone(),
            Some((n, t)) => format!("{}{{{}}}{}", self.0, n, t),
        }
    }
    fn takes(&self, s: &str) -> Option<Option<(String, String)>> {
        match &self.1 {
            None => if self.0 == s { Some(None) } else { None },
            Some((n, t)) => {
                if s.len() >= self.0.len() + t.len() && s.starts_with(&self.0) && s.ends_with(t.as_str()) {
                    Some(Some((n.clone(), s[self.0.len()..s.len() - t.len()].to_string())))
                } else {
                    None
                }
            }
        }
    }
}
#[derive(Clone)]
struct Pattern(Vec<Piece>);
impl Pattern {
    fn some(r: &mut Rng) -> Self {
        let k = 1 + r.below(4);
        let mut v: Vec<Piece> = (0..k).map(|_| Piece(if r.chance(1, 2) { r.pick(&["a", "b", "balance", "a.b", "a+"]).to_string() } else { word(r, 4) }, None)).collect();
        let names = ["address", "x", "y", "", "a-b", "confirmations"];
        let mut at = r.below(names.len());
        for p in v.iter_mut() {
            if r.chance(1, 3) {
                // the parts around a hole: mostly a whole segment
                let (a, b) = if r.chance(2, 3) { (String::new(), String::new()) } else { (word(r, 3), word(r, 3)) };
                *p = Piece(a, Some((names[at % names.len()].to_string(), b)));
                at += 1;
            }
        }
        Pattern(v)
    }
    fn text(&self) -> String {
        self.0.iter().map(|p| format!("/{}", p.shown())).collect()
    }
    fn takes(&self, path: &str) -> Option<BTreeMap<String, String>> {
        let seg: Vec<&str> = path.split('/').skip(1).collect();
        if seg.len() != self.0.len() {
            return None;
        }
        let mut m = BTreeMap::new();
        for (p, s) in self.0.iter().zip(seg) {
            m.extend(p.takes(s)?);
        }
        Some(m)
    }
    fn fill(&self, r: &mut Rng) -> String {
        self.0.iter().map(|p| match &p.1 { None => format!("/{}", p.0), Some((_, t)) => format!("/{}{}{}", p.0, word(r, 5), t) }).collect()
    }
}
fn twist(r: &mut Rng, p: String) -> String {
    let mut b = p.into_bytes();
    match r.below(6) {
        0 => b.push(b'/'),
        1 => {
            let i = r.below(b.len());
            b[i] = *r.pick(PLAIN);
        }
        2 => {
            let i = r.below(b.len());
            b.remove(i);
        }
        3 => {
            let i = r.below(b.len() + 1);
            let slash = r.chance(1, 2);
            b.insert(i, *r.pick(if slash { b"/" } else { PLAIN }));
        }
        4 => {
            let k = r.below(4);
            b.truncate(b.len().saturating_sub(k));
        }
        _ => b.extend(b"/a"),
    }
    if b.first() != Some(&b'/') {
        b.insert(0, b'/');
    }
    String::from_utf8(b).unwrap()
}
fn shown(p: &BTreeMap<String, String>) -> String {
    serde_json::to_string(p).unwrap()
}
fn made_up(r: &mut Rng) -> Result<Case, String> {
    let mut routes: Vec<(&'static str, Pattern)> = (0..1 + r.below(5)).map(|_| (*r.pick(&["GET", "POST"]), Pattern::some(r))).collect();
    if r.chance(1, 2) {
        // the same pattern again: the first one answers
        let t = r.pick(&routes).clone();
        let m = *r.pick(&["GET", "POST"]);
        routes.push((m, t.1));
    }
    let default = r.chance(1, 2);
    let tag = r.next();
    let state = Arc::new(tag);
    let told = routes.iter().map(|(m, p)| format!("{} {}", m, p.text())).collect::<Vec<_>>().join(", ");
    note(format!("routes {}", told));
    let site = Site::new(|| {
        let mut s: Server<u64> = Server::new(state.clone());
        for (i, (m, p)) in routes.iter().enumerate() {
            let h = move |q: hyper::Request<Body>, p: std::collections::HashMap<String, String>, b: Vec<u8>, t: Arc<u64>| async move {
                let p: BTreeMap<String, String> = p.into_iter().collect();
                Response::new(Body::from(format!("route {} {} {} {} {} {}", i, q.method(), q.uri(), shown(&p), hx(&b), t)))
            };
            if *m == "GET" { s.get(&p.text(), h) } else { s.post(&p.text(), h) }
        }
        if default {
            s.default(|q: hyper::Request<Body>, b: Vec<u8>, t: Arc<u64>| async move { Response::new(Body::from(format!("default {} {} {} {}", q.method(), q.uri(), hx(&b), t))) });
        }
        s
    })?;
    let mut l = site.connect()?;
    let (mut met, k) = (0, 10 + r.below(40));
    for _ in 0..k {
        let (m, p) = r.pick(&routes).clone();
        let method = if r.chance(5, 6) { m } else { *r.pick(&["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "get"]) };
        let mut path = p.fill(r);
        if r.chance(1, 3) {
            path = twist(r, path);
        }
        let q = if r.chance(1, 2) {
            None
        } else {
            let names = ["address", "x", "y", "", "a-b", "confirmations", "z"];
            Some((0..r.below(4)).map(|_| match r.below(4) { 0 => r.pick(&names).to_string(), 1 => format!("{}={}", r.pick(&names), word(r, 6)), _ => format!("{}={}", r.pick(&names), r.below(9)) }).collect::<Vec<_>>().join("&"))
        };
        let size = if r.chance(1, 30) { 200_000 } else { 12 };
        let body = if method == "POST" || r.chance(1, 6) { let k = r.below(size); r.bytes(k) } else { vec![] };
        let sent = Sent::some(r, body);
        let target = match &q {
            Some(q) => format!("{}?{}", path, q),
            None => path.clone(),
        };
        let what = format!("{} {} with routes {}", method, target, told);
        note(what.clone());
        let got = l.ask(method, &target, &sent)?;
        let text = String::from_utf8_lossy(&got.1).to_string();
        let hit = routes.iter().enumerate().find_map(|(i, (m, p))| if *m == method { p.takes(&path).map(|a| (i, a)) } else { None });
        let want = match hit {
            Some((i, a)) => {
                met += 1;
                let mut all = query(q.as_deref());
                all.extend(a);
                format!("route {} {} {} {} {} {}", i, method, target, shown(&all), hx(&sent.bytes()), tag)
            }
            None if default => format!("default {} {} {} {}", method, target, hx(&sent.bytes()), tag),
            None => {
                must!(got.0 == 404, "{}: {} {}, expected 404", what, got.0, text);
                continue;
            }
        };
        must!(got.0 == 200 && text == want, "{}: {} {}, expected {}", what, got.0, text.chars().take(300).collect::<String>(), want.chars().take(300).collect::<String>());
    }
    Ok(Case { nontrivial: met > 0, text: format!("{}: {} of {} requests {}", told, met, k, tag) })
}
pub fn c26(r: &mut Rng, _i: u64) -> Result<Case, String> {
    if r.chance(1, 2) {
        return made_up(r);
    }
    let s = Service::new(r, some_value)?;
    let mut l = s.site.connect()?;
    let (mut found, k) = (0, 20 + r.below(60));
    for _ in 0..k {
        let last = *r.pick(&["balance", "utxos"]);
        let mut path = if r.chance(1, 2) { format!("/addresses/{}", last) } else { format!("/addresses/{}/{}", s.some_text(r), last) };
        if r.chance(1, 3) {
            path = match r.below(8) {
                0 => "/".into(),
                1 => format!("/addresses/balance/{}", last),
                2 => format!("/addresses/utxos/{}", last),
                3 => format!("/addresses/{}/{}/", s.some_text(r), last),
                4 => format!("/addresses//{}", last),
                5 => path.to_uppercase(),
                _ => twist(r, path),
            };
        }
        let method = *r.pick(&["GET", "GET", "GET", "POST", "POST", "PUT", "DELETE", "HEAD"]);
        let list: Vec<String> = (0..r.below(4)).map(|_| s.some_text(r)).collect();
        let mut v: Vec<String> = vec![];
        if r.chance(1, 2) {
            v.push(format!("addresses={}", list.join(",")));
        }
        if r.chance(1, 2) {
            v.push(format!("confirmations={}", r.below(s.n + 2)));
        }
        if r.chance(1, 3) {
            v.push(format!("address={}", s.some_text(r)));
        }
        r.shuffle(&mut v);
        let body = match r.below(8) {
            0 => vec![],
            1 => r.bytes(5),
            2 => br#"{"addresses":[]}"#.to_vec(),
            3 => serde_json::to_vec(&serde_json::json!([list, 1])).unwrap(),
            4 => br#" [ ] "#.to_vec(),
            _ => serde_json::to_vec(&list).unwrap(),
        };
        let sent = if method == "GET" || method == "HEAD" { Sent::Nothing } else { Sent::some(r, body) };
        let q = v.join("&");
        found += s.ask(&mut l, method, &path, if q.is_empty() { None } else { Some(&q) }, &sent)? as usize;
    }
    Ok(Case { nontrivial: found > 0, text: format!("the service, {} requests, {} with something {}", k, found, hx(&s.m.tip()[..6])) })
}
