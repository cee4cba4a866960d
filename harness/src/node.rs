//! C15, C16, C21: the index follows a node that this program plays, over HTTP on the loopback interface.
use crate::chain::*;
use crate::core::*;
use crate::must;
use crate::wire::*;
use bitcoin_indexer::block::{Block, BlockTrait};
use bitcoin_indexer::client::Client;
use bitcoin_indexer::last_blocks::LastBlocks;
use bitcoin_indexer::logger::Logger;
use bitcoin_indexer::state::State;
use bitcoin_indexer::store::IndexedStore;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::Poll;

/// what the node was asked for, and gave
#[derive(Clone, Debug, PartialEq)]
pub enum Asked {
    Pool,
    Tx(H32, bool),
    Hash(u64, Option<H32>),
    Block(H32, bool),
}
#[derive(Default)]
struct World {
    /// ids by height
    chain: Vec<H32>,
    /// after so many more questions for a block of some height, this is the chain
    next: Option<(usize, Vec<H32>)>,
    blocks: HashMap<H32, Vec<u8>>,
    pool: Vec<H32>,
    txs: HashMap<H32, Vec<u8>>,
    log: Vec<Asked>,
    strange: Option<String>,
}
fn flip(h: &H32) -> String {
    h.iter().rev().map(|x| format!("{:02x}", x)).collect()
}
pub fn unflip(s: &str) -> Option<H32> {
    if s.len() != 64 || !s.is_ascii() {
        return None;
    }
    let mut h = [0; 32];
    for i in 0..32 {
        h[31 - i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()?;
    }
    Some(h)
}
enum Reply {
    Ok(String),
    Error(i32, &'static str),
}
impl World {
    fn answer(&mut self, body: &[u8]) -> Option<Reply> {
        let v: serde_json::Value = serde_json::from_slice(body).ok()?;
        let p = v["params"].as_array()?.clone();
        let name = |i: usize| p.get(i).and_then(|x| x.as_str()).and_then(unflip);
        Some(match v["method"].as_str()? {
            "getrawmempool" => {
                self.log.push(Asked::Pool);
                if p.get(0).and_then(|x| x.as_bool()).unwrap_or(false) {
                    Reply::Ok("{}".into())
                } else {
                    Reply::Ok(format!("[{}]", self.pool.iter().map(|h| format!("\"{}\"", flip(h))).collect::<Vec<_>>().join(",")))
                }
            }
            "getrawtransaction" => {
                let h = name(0)?;
                let t = self.txs.get(&h);
                self.log.push(Asked::Tx(h, t.is_some()));
                match t {
                    Some(t) => Reply::Ok(format!("\"{}\"", hx(t))),
                    None => Reply::Error(-5, "No such mempool or blockchain transaction"),
                }
            }
            "getblockhash" => {
                let n = p.get(0)?.as_u64()?;
                if let Some((k, c)) = self.next.take() {
                    if k == 0 { self.chain = c } else { self.next = Some((k - 1, c)) }
                }
                let h = self.chain.get(n as usize).cloned();
                self.log.push(Asked::Hash(n, h));
                match h {
                    Some(h) => Reply::Ok(format!("\"{}\"", flip(&h))),
                    None => Reply::Error(-8, "Block height out of range"),
                }
            }
            "getblock" => {
                let h = name(0)?;
                if p.get(1).map(|x| x != &serde_json::json!(0)).unwrap_or(true) {
                    return Some(Reply::Ok("{}".into()));
                }
                let b = self.blocks.get(&h);
                self.log.push(Asked::Block(h, b.is_some()));
                match b {
                    Some(b) => Reply::Ok(format!("\"{}\"", hx(b))),
                    None => Reply::Error(-5, "Block not found"),
                }
            }
            _ => return None,
        })
    }
}
pub struct Node {
    port: u16,
    world: Arc<Mutex<World>>,
}
fn serve(s: TcpStream, world: Arc<Mutex<World>>) -> Option<()> {
    s.set_nodelay(true).ok()?;
    let mut w = s.try_clone().ok()?;
    let mut r = BufReader::new(s);
    loop {
        let mut n = 0usize;
        let mut line = String::new();
        if r.read_line(&mut line).ok()? == 0 {
            return None;
        }
        loop {
            let mut line = String::new();
            r.read_line(&mut line).ok()?;
            let l = line.trim();
            if l.is_empty() {
                break;
            }
            if let Some((k, v)) = l.split_once(':') {
                if k.eq_ignore_ascii_case("content-length") {
                    n = v.trim().parse().ok()?;
                }
            }
        }
        let mut body = vec![0; n];
        r.read_exact(&mut body).ok()?;
        let reply = {
            let mut g = world.lock().unwrap();
            let a = g.answer(&body);
            if a.is_none() {
                g.strange = Some(String::from_utf8_lossy(&body).chars().take(200).collect());
            }
            a
        };
        let (status, text) = match reply {
            Some(Reply::Ok(v)) => ("200 OK", format!("{{\"result\":{},\"error\":null,\"id\":\"indexer\"}}", v)),
            Some(Reply::Error(c, m)) => ("500 Internal Server Error", format!("{{\"result\":null,\"error\":{{\"code\":{},\"message\":\"{}\"}},\"id\":\"indexer\"}}", c, m)),
            None => ("404 Not Found", "{\"result\":null,\"error\":{\"code\":-32601,\"message\":\"Method not found\"},\"id\":null}".into()),
        };
        let out = format!("HTTP/1.1 {}\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n{}", status, text.len(), text);
        w.write_all(out.as_bytes()).ok()?;
    }
}
impl Node {
    fn new() -> Self {
        let l = TcpListener::bind("127.0.0.1:0").expect("a port on the loopback interface");
        let port = l.local_addr().unwrap().port();
        let world = Arc::new(Mutex::new(World::default()));
        let shared = world.clone();
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                let world = shared.clone();
                std::thread::spawn(move || serve(s, world));
            }
        });
        Node { port, world }
    }
    pub fn client(&self) -> Client {
        Client::new("127.0.0.1", self.port, "user", "password")
    }
    pub fn take_log(&self) -> Result<Vec<Asked>, String> {
        let mut w = self.world.lock().unwrap();
        must!(w.strange.is_none(), "the node was asked what it does not understand: {:?}", w.strange);
        Ok(std::mem::take(&mut w.log))
    }
}
thread_local! {
    pub static NODE: Node = Node::new();
    static RUNTIME: std::cell::RefCell<Option<tokio::runtime::Runtime>> = std::cell::RefCell::new(None);
}
pub fn wait<F: std::future::Future>(f: F) -> F::Output {
    RUNTIME.with(|r| {
        let mut r = r.borrow_mut();
        if r.is_none() {
            *r = Some(tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap());
        }
        r.as_ref().unwrap().block_on(f)
    })
}

/// the world as the model sees it
pub struct Model {
    pub people: People,
    pub blocks: HashMap<H32, MBlock>,
    /// unspent outputs after each block
    pub after: HashMap<H32, Utxos>,
    pub txs: BTreeMap<H32, MTx>,
    /// the node's chain
    pub chain: Vec<H32>,
    /// blocks in the store
    pub stored: Vec<H32>,
    /// recent blocks
    pub recent: Vec<H32>,
    /// the mempool as listed, and what the index knows of it
    pub pool: Vec<H32>,
    pub known: BTreeSet<H32>,
    /// transactions the node lists and does not give
    pub withheld: BTreeSet<H32>,
    /// ids end in so many zero bytes, as a miner's do
    pub zeros: usize,
}
impl Model {
    fn add(&mut self, r: &mut Rng, parent: H32) -> H32 {
        let mut u = self.after.get(&parent).cloned().unwrap_or_default();
        let mut txs = vec![];
        // some of what waits in the mempool is confirmed
        if !self.pool.is_empty() && r.chance(1, 2) {
            for h in self.pool.clone() {
                let t = self.txs[&h].clone();
                if r.chance(1, 2) && !t.spends().is_empty() && t.spends().iter().all(|o| u.contains_key(o)) {
                    t.apply(&mut u).unwrap();
                    txs.push(t);
                }
            }
        }
        let mut b = if txs.is_empty() { self.people.block(r, parent, &mut u) } else { MBlock::new(r, parent, txs) };
        b.mine(self.zeros);
        for t in &b.txs {
            self.txs.insert(t.id, t.clone());
        }
        let id = b.id;
        self.blocks.insert(id, b);
        self.after.insert(id, u);
        id
    }
    fn grow(&mut self, r: &mut Rng, mut c: Vec<H32>, n: usize) -> Vec<H32> {
        for _ in 0..n {
            let p = c.last().cloned().unwrap_or([0; 32]);
            c.push(self.add(r, p));
        }
        c
    }
    /// a listing of transactions: some make chains, some conflict, some lack a parent, some are confirmed already
    fn listing(&mut self, r: &mut Rng) -> Vec<H32> {
        let tip = self.chain[self.chain.len() - 1];
        let mut list: Vec<H32> = self.pool.iter().cloned().filter(|_| r.chance(3, 4)).collect();
        let base = self.after[&tip].clone();
        let mut v = base.clone();
        for _ in 0..r.below(6) {
            let from = if r.chance(1, 3) { &base } else { &v };
            if let Some(t) = self.people.spend(r, from) {
                let _ = t.apply(&mut v);
                list.push(t.id);
                if r.chance(1, 8) {
                    self.withheld.insert(t.id);
                }
                self.txs.insert(t.id, t);
            }
        }
        if r.chance(1, 4) {
            let t = self.people.from_ins(r, &[(r.clone().array(), 0)]);
            list.push(t.id);
            self.txs.insert(t.id, t);
        }
        if r.chance(1, 4) {
            // confirmed already
            let t = r.pick(&self.blocks[&tip].txs.iter().map(|t| t.id).chain([tip]).collect::<Vec<_>>()).clone();
            if t != tip && !self.txs[&t].spends().is_empty() && !list.contains(&t) {
                list.push(t);
            }
        }
        if r.chance(1, 3) {
            r.shuffle(&mut list);
        }
        if r.chance(1, 4) {
            self.withheld.clear();
        }
        list
    }
    pub fn tell(&self) -> String {
        let s = |c: &[H32]| c.iter().map(|h| hx(&h[..3])).collect::<Vec<_>>().join(" ");
        format!("store [{}], recent [{}], node [{}], mempool [{}]", s(&self.stored), s(&self.recent), s(&self.chain), s(&self.pool))
    }
    pub fn tip(&self) -> H32 {
        self.recent.last().or(self.stored.last()).cloned().unwrap()
    }
    /// the blocks the node was asked for, one step after the other
    pub fn follow(&mut self, log: &[Asked]) -> Result<usize, String> {
        let mut steps = 0;
        let mut pending: Option<H32> = None;
        let mut ended = false;
        for a in log {
            match a {
                Asked::Hash(n, h) => {
                    let want = (self.stored.len() + self.recent.len()) as u64;
                    must!(!ended, "the node is asked for more blocks after its last one; {}", self.tell());
                    must!(*n == want, "the node is asked for the block at height {}, next is {}; {}", n, want, self.tell());
                    must!(pending.is_none(), "two heights in a row; {}", self.tell());
                    pending = *h;
                    ended = h.is_none();
                }
                Asked::Block(h, given) => {
                    must!(pending == Some(*h) && *given, "the node is asked for block {}, named {}; {}", hx(h), pending.map(|h| hx(&h)).unwrap_or_default(), self.tell());
                    pending = None;
                    steps += 1;
                    if self.blocks[h].parent == self.tip() {
                        self.recent.push(*h);
                    } else {
                        must!(self.recent.pop().is_some(), "a block of the store was dropped; {}", self.tell());
                    }
                }
                _ => {}
            }
        }
        must!(ended, "the node was not asked until it had no more blocks; {}", self.tell());
        Ok(steps)
    }
    fn asked_pool(&mut self, log: &[Asked]) -> Result<(), String> {
        let mut asked: Vec<(H32, bool)> = log.iter().filter_map(|a| if let Asked::Tx(h, g) = a { Some((*h, *g)) } else { None }).collect();
        let mut want: Vec<(H32, bool)> = self.pool.iter().filter(|h| !self.known.contains(*h)).map(|h| (*h, !self.withheld.contains(h))).collect();
        asked.sort();
        want.sort();
        for a in &asked {
            must!(want.contains(a), "the node is asked for transaction {} ({}); {}", hx(&a.0), if self.known.contains(&a.0) { "known already" } else { "not listed" }, self.tell());
        }
        must!(asked.windows(2).all(|w| w[0] != w[1]), "the node is asked twice for one transaction; {}", self.tell());
        must!(asked == want, "the node is not asked for {} listed transactions; {}", want.len() - asked.len(), self.tell());
        self.known = self.pool.iter().cloned().filter(|h| self.known.contains(h) || !self.withheld.contains(h)).collect();
        Ok(())
    }
    /// after an update: what it moved into the store, what is known of the mempool
    pub fn settle(&mut self, n: usize) -> usize {
        self.known = self.pool.iter().cloned().filter(|h| self.known.contains(h) || !self.withheld.contains(h)).collect();
        let out = self.recent.len().saturating_sub(n - 1);
        let old: Vec<H32> = self.recent.drain(..out).collect();
        self.stored.extend(old);
        out
    }
    /// a query at c confirmations
    pub fn view(&self, c: usize) -> Utxos {
        let full: Vec<H32> = self.stored.iter().chain(self.recent.iter()).cloned().collect();
        let mut u = self.after[&full[full.len() - c.max(1)]].clone();
        if c == 0 {
            for h in &self.pool {
                if self.known.contains(h) {
                    let t = &self.txs[h];
                    if t.spends().iter().all(|o| u.contains_key(o)) {
                        t.apply(&mut u).unwrap();
                    }
                }
            }
        }
        u
    }
    fn publish(&mut self, next: Option<(usize, Vec<H32>)>) {
        NODE.with(|n| {
            let mut w = n.world.lock().unwrap();
            w.chain = self.chain.clone();
            w.next = next;
            for (h, b) in &self.blocks {
                w.blocks.entry(*h).or_insert_with(|| b.bytes());
            }
            w.pool = self.pool.clone();
            w.txs = self.pool.iter().filter(|h| !self.withheld.contains(*h)).map(|h| (*h, self.txs[h].wire.wire())).collect();
        });
    }
    /// the node goes on: `floor` blocks stay, at least `least` blocks are there afterwards
    pub fn turn(&mut self, r: &mut Rng, floor: usize, least: usize, n: usize) {
        let c = self.chain.clone();
        let at = if r.chance(1, 2) || floor >= c.len() { c.len() } else { r.range(floor, c.len() - 1) };
        let mut k = match r.below(8) { 0 | 1 => 0, 7 => r.below(5), _ => 1 + r.below(2) };
        // what replaces some blocks is mostly longer
        if at < c.len() && r.chance(5, 6) {
            k = c.len() - at + 1 + r.below(2);
        }
        let k = k.max(least.saturating_sub(at));
        let c = self.grow(r, c[..at].to_vec(), k);
        self.chain = c;
        self.pool = self.listing(r);
        let mut next = None;
        // at another moment of the same update it goes on again, without the blocks that may be stored by then
        if r.chance(1, 5) {
            let len = self.chain.len();
            let floor = (len + 3).saturating_sub(n - 1).min(len);
            let at = r.range(floor, len);
            let k = (len - at) + r.below(3);
            let other = self.grow(r, self.chain[..at].to_vec(), k);
            next = Some((r.below(3), other));
        }
        let last = next.clone();
        self.publish(next);
        if let Some((_, c)) = last {
            self.chain = c;
        }
    }
}
fn start(r: &mut Rng) -> (Model, IndexedStore) {
    start_with(r, some_value)
}
pub fn start_with(r: &mut Rng, values: fn(&mut Rng) -> u64) -> (Model, IndexedStore) {
    let mut people = People::new(r);
    people.1 = values;
    let mut m = Model { people, blocks: HashMap::new(), after: HashMap::new(), txs: BTreeMap::new(), chain: vec![], stored: vec![], recent: vec![], pool: vec![], known: BTreeSet::new(), withheld: BTreeSet::new(), zeros: 0 };
    NODE.with(|n| *n.world.lock().unwrap() = World::default());
    m.zeros = match r.below(24) { 0 => 2, 1..=6 => 1, _ => 0 };
    let n = 1 + r.below(4);
    m.chain = m.grow(r, vec![], n);
    m.stored = m.chain.clone();
    let blocks: Vec<Block> = m.stored.iter().enumerate().map(|(h, b)| m.blocks[b].repo(h)).collect();
    let store = IndexedStore::from_blocks(blocks, 1, 1, Logger::new());
    (m, store)
}
pub fn total(l: &BTreeMap<Out, u64>) -> Option<u64> {
    l.values().try_fold(0u64, |a, b| a.checked_add(*b))
}
fn check_queries(r: &mut Rng, s: &State, m: &Model, depths: std::ops::RangeInclusive<usize>, what: &str) -> Result<usize, String> {
    let txs: Vec<MTx> = m.txs.values().cloned().collect();
    let addrs = addresses(&txs, &m.people);
    let mut found = 0;
    for c in depths {
        let u = m.view(c);
        let want: Vec<BTreeMap<Out, u64>> = addrs.iter().map(|a| by_addr(&u, a)).collect();
        let all: Vec<_> = addrs.iter().map(repo_addr).collect();
        let got = wait(s.transaction_outputs_array(all.clone(), c));
        must!(got.len() == all.len(), "{}: {} answers for {} addresses at {} confirmations", what, got.len(), all.len(), c);
        for (i, (a, l)) in got.iter().enumerate() {
            must!(*a == all[i], "{}: answer {} is for another address", what, i);
            check_list(l, &want[i], &format!("{}: outputs of {:?} at {} confirmations", what, addrs[i], c))?;
            found += l.len();
        }
        let i = r.below(addrs.len());
        let mut l = vec![];
        wait(s.iterate_transaction_outputs(&all[i], c, |o, v| l.push((o.clone(), v))));
        check_list(&l, &want[i], &format!("{}: outputs of {:?} at {} confirmations", what, addrs[i], c))?;
        let sums: Vec<Option<u64>> = want.iter().map(total).collect();
        if let Some(w) = sums[i] {
            let b = wait(s.balance(&all[i], c));
            must!(b == w, "{}: balance of {:?} at {} confirmations is {}, expected {}", what, addrs[i], c, b, w);
        }
        if sums.iter().all(|x| x.is_some()) {
            let got = wait(s.balance_array(all.clone(), c));
            must!(got.len() == all.len(), "{}: {} balances for {} addresses", what, got.len(), all.len());
            for (i, (a, b)) in got.iter().enumerate() {
                must!(*a == all[i] && *b == sums[i].unwrap(), "{}: balance of {:?} at {} confirmations is {}, expected {:?}", what, addrs[i], c, b, sums[i]);
            }
        }
    }
    Ok(found)
}
fn check_list(l: &[(bitcoin_indexer::transaction_output::TransactionOutput, u64)], want: &BTreeMap<Out, u64>, what: &str) -> Result<(), String> {
    let got: BTreeMap<Out, u64> = l.iter().map(|(o, v)| ((o.hash, o.index), *v)).collect();
    must!(got.len() == l.len(), "{} lists an output twice", what);
    for (o, v) in want {
        must!(got.get(o) == Some(v), "{} has {:?} for {}:{}, expected {}", what, got.get(o), hx(&o.0), o.1, v);
    }
    must!(got.len() == want.len(), "{} lists {} outputs, expected {}", what, got.len(), want.len());
    Ok(())
}
async fn poll_once<F: Future + Unpin>(f: &mut F) -> Option<F::Output> {
    std::future::poll_fn(|cx| Poll::Ready(match Pin::new(&mut *f).poll(cx) { Poll::Ready(x) => Some(x), Poll::Pending => None })).await
}
#[derive(PartialEq)]
enum Focus { Depths, Pool }
fn histories(r: &mut Rng, focus: Focus) -> Result<Case, String> {
    let (mut m, store) = start(r);
    let n = 1 + r.below(5);
    let s = State::new(store, NODE.with(|n| n.client()), n);
    must!(s.confirmations() == n, "confirmations() is {}, configured {}", s.confirmations(), n);
    let rounds = 4 + r.below(28);
    let (mut text, mut found) = (format!("{} confirmations:", n), 0);
    // the index may be asked to be written at any moment
    let dir = crate::files::Scratch::new();
    let file = dir.0.join("index").to_string_lossy().into_owned();
    let mut writing: Option<Pin<Box<dyn Future<Output = ()> + '_>>> = None;
    for k in 0..rounds {
        let (floor, least) = (m.stored.len(), m.stored.len() + n - 1);
        if focus == Focus::Pool && r.chance(1, 3) && k > 0 {
            m.pool = m.listing(r);
            m.publish(None);
        } else {
            m.turn(r, floor, least, n);
        }
        let what = format!("update {} at {} confirmations; before: {}", k, n, m.tell());
        note(what.clone());
        let held = writing.is_some();
        let moved = if writing.is_none() && focus == Focus::Depths && r.chance(1, 5) {
            // while the update is at work; what comes of it is waited for later
            let mut w: Pin<Box<dyn Future<Output = ()> + '_>> = Box::pin(s.write(&file));
            let moved = wait(async {
                let mut up = Box::pin(s.update());
                match poll_once(&mut up).await {
                    Some(m) => m,
                    None => {
                        if poll_once(&mut w).await.is_none() {
                            writing = Some(w);
                        }
                        up.await
                    }
                }
            });
            moved
        } else {
            wait(s.update())
        };
        let what = if held { format!("{}; a write was asked for during an earlier update and is not at work yet", what) } else { what };
        let log = NODE.with(|n| n.take_log())?;
        match focus {
            Focus::Depths => {
                // what the index took over is checked by C16 and C21; here it is followed
                let left = m.recent.len() > n - 1;
                let steps = m.follow(&log)?;
                let due = m.recent.len().saturating_sub(n - 1);
                // the store may be left as it is while a write waits, and what was left then may stay until the next block
                let late = held || left && steps == 0;
                let out = if late && !moved { m.settle(m.recent.len() + 1) } else { m.settle(n) };
                must!(moved == (out > 0) || late && !moved && due > 0, "{}: update() returned {}, {} blocks were to be stored", what, moved, out);
                text += &format!(" {} blocks, {} stored;", steps, out);
                found += check_queries(r, &s, &m, 0..=n, &format!("{}; after: {}", what, m.tell()))?;
                if held && r.chance(1, 2) {
                    wait(writing.take().unwrap());
                }
            }
            Focus::Pool => {
                m.follow(&log)?;
                let out = m.recent.len().saturating_sub(n - 1);
                let old: Vec<H32> = m.recent.drain(..out).collect();
                m.stored.extend(old);
                must!(log.iter().filter(|a| **a == Asked::Pool).count() == 1, "{}: the mempool is not listed once per update", what);
                m.asked_pool(&log)?;
                text += &format!(" {} listed, {} known;", m.pool.len(), m.known.len());
                found += check_queries(r, &s, &m, 0..=0, &format!("{}; after: {}", what, m.tell()))?;
            }
        }
    }
    Ok(Case { nontrivial: found > 0, text: text + &hx(&m.tip()[..6]) })
}
pub fn c15(r: &mut Rng, _i: u64) -> Result<Case, String> {
    histories(r, Focus::Depths)
}
pub fn c21(r: &mut Rng, _i: u64) -> Result<Case, String> {
    histories(r, Focus::Pool)
}
pub fn c16(r: &mut Rng, _i: u64) -> Result<Case, String> {
    let (mut m, mut store) = start(r);
    let client = NODE.with(|n| n.client());
    let logger = Logger::new();
    let mut l = LastBlocks::new();
    let n = 1 + r.below(5);
    let mut text = format!("{} confirmations:", n);
    let rounds = 3 + r.below(28);
    let mut last = false;
    for k in 0..rounds {
        last = k + 1 == rounds;
        // the last time, the node may leave even stored blocks
        let deep = last && r.chance(1, 4);
        let floor = if deep { m.stored.len() - 1 } else { m.stored.len() };
        m.turn(r, floor, m.stored.len(), n.max(m.recent.len() + 1));
        if r.chance(1, 3) {
            wait(l.update_mempool(&client, &logger));
            let _ = NODE.with(|n| n.take_log())?;
        }
        let what = format!("update {}; before: {}", k, m.tell());
        note(what.clone());
        let before = m.recent.clone();
        let left_store = m.chain.len() < m.stored.len() || m.chain[..m.stored.len()] != m.stored[..];
        match guarded(|| wait(l.update_blocks(&store, &client, &logger))) {
            Err(e) => {
                must!(left_store, "{}: panicked: {}", what, e);
                text += " left the store";
                return Ok(Case { nontrivial: true, text: text + &hx(&m.tip()[..6]) });
            }
            Ok(u) => {
                let log = NODE.with(|n| n.take_log())?;
                let steps = m.follow(&log)?;
                must!(u == (steps > 0), "{}: update_blocks() returned {} after {} blocks", what, u, steps);
                text += &format!(" {} blocks fetched, {} recent", steps, m.recent.len());
            }
        }
        must!(l.len() == m.recent.len() + 1, "{}: len() is {} with {} recent blocks", what, l.len(), m.recent.len());
        if r.chance(1, 2) || last {
            let c = if last { 1 } else if r.chance(3, 4) { n } else { 1 + r.below(6) };
            let out = l.pop(c);
            let want = m.recent.len().saturating_sub(c - 1);
            must!(out.len() == want, "{}: pop({}) gave {} of {} blocks", what, c, out.len(), m.recent.len());
            for b in &out {
                let h = m.recent.remove(0);
                must!(b.header().hash == h, "{}: pop({}) gave block {}, next is {} (before the update: {})", what, c, hx(&b.header().hash), hx(&h), before.iter().map(|h| hx(&h[..3])).collect::<Vec<_>>().join(" "));
                must!(b.height() == m.stored.len(), "{}: block {} has height {}, expected {}", what, hx(&h), b.height(), m.stored.len());
                must!(b.header().previous_block_hash == *m.stored.last().unwrap(), "{}: block {} does not continue the store", what, hx(&h));
                must!(store.height() == m.stored.len() && store.last_block_hash() == m.stored.last().cloned(), "{}: store out of step", what);
                store.add_block(b);
                m.stored.push(h);
            }
            must!(l.len() == m.recent.len() + 1, "{}: {} blocks are left after pop({}), expected {}", what, l.len() - 1, c, m.recent.len());
            text += &format!(", {} out;", want);
        }
    }
    Ok(Case { nontrivial: last, text: text + &hx(&m.tip()[..6]) })
}
