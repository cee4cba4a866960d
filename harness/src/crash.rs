//! C24: a process that saves the index is stopped: when its file reaches some length (RLIMIT_FSIZE), or at some moment.
use crate::chain::*;
use crate::core::*;
use crate::files::Scratch;
use crate::must;
use crate::wire::*;
use bitcoin_indexer::client::Client;
use bitcoin_indexer::logger::Logger;
use bitcoin_indexer::state::State;
use bitcoin_indexer::store::IndexedStore;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[repr(C)]
struct Limit {
    soft: u64,
    hard: u64,
}
extern "C" {
    fn setrlimit(what: i32, l: *const Limit) -> i32;
}
const RLIMIT_FSIZE: i32 = 1;
const RLIMIT_CORE: i32 = 4;

/// two indexes: the one that was saved, and a later one
fn pair(seed: u64) -> (IndexedStore, IndexedStore, usize, usize) {
    let mut r = Rng::new(seed, 24);
    let r = &mut r;
    let p = People::new(r);
    let mut u = Utxos::new();
    let (n, k) = (r.below(6), 1 + r.below(if r.clone().chance(1, 10) { 300 } else { 5 }));
    let a = p.chain(r, [0; 32], &mut u, n);
    let parent = a.last().map(|b| b.id).unwrap_or([0; 32]);
    let b = p.chain(r, parent, &mut u, k);
    let make = |v: &[MBlock]| IndexedStore::from_blocks(v.iter().enumerate().map(|(h, b)| b.repo(h)).collect::<Vec<_>>(), 1, 1, Logger::new());
    (make(&a), make(&[a.clone(), b].concat()), n, n + k)
}
/// crash-child SEED PATH LIMIT|loop
pub fn child(args: &[String]) {
    let seed = args[0].parse().unwrap();
    let (a, b, _, _) = pair(seed);
    let logger = Logger::new();
    unsafe { setrlimit(RLIMIT_CORE, &Limit { soft: 0, hard: 0 }) };
    // half of the cases save as the running service does, the others as the first start does
    let service = seed % 2 == 0;
    let runtime = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap();
    let save: Box<dyn Fn(usize)> = if service {
        let states = [a, b].map(|s| State::new(s, Client::new("127.0.0.1", 1, "user", "password"), 1));
        let path = args[1].clone();
        Box::new(move |k| runtime.block_on(states[k].write(&path)))
    } else {
        let path = args[1].clone();
        Box::new(move |k| [&a, &b][k].to_file(&path, &logger))
    };
    if args[2] == "loop" {
        std::fs::write(format!("{}.ready", args[1]), b"").unwrap();
        for k in 0usize.. {
            save((k + 1) % 2);
        }
    }
    let n: u64 = args[2].parse().unwrap();
    unsafe { setrlimit(RLIMIT_FSIZE, &Limit { soft: n, hard: n }) };
    save(1);
}
fn at(d: &Scratch, name: &str) -> String {
    d.0.join(name).to_str().unwrap().to_string()
}
fn image(s: &IndexedStore, path: &str) -> Vec<u8> {
    s.to_file(path, &Logger::new());
    let v = std::fs::read(path).unwrap();
    std::fs::remove_file(path).unwrap();
    v
}
pub fn c24(r: &mut Rng, _i: u64) -> Result<Case, String> {
    let seed = r.next();
    let dir = Scratch::new();
    let path = at(&dir, "index");
    note(format!("indexes {}", seed));
    let logger = Logger::new();
    let (a, b, na, nb) = pair(seed);
    let (ia, ib) = (image(&a, &at(&dir, "a")), image(&b, &at(&dir, "b")));
    let before = r.chance(5, 6);
    if before {
        a.to_file(&path, &logger);
    }
    let run = |mode: &str| Command::new(std::env::current_exe().unwrap()).args(["crash-child", &seed.to_string(), &path, mode]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let (what, finished);
    if r.chance(1, 3) {
        let pause = Duration::from_micros(r.below(8000) as u64);
        what = format!("a process that saves {} and {} blocks in turns, ended after {:?}", nb, na, pause);
        note(what.clone());
        let mut c = run("loop");
        let end = Instant::now() + Duration::from_secs(20);
        while std::fs::metadata(at(&dir, "index.ready")).is_err() && Instant::now() < end && c.try_wait().unwrap().is_none() {
            std::thread::sleep(Duration::from_micros(200));
        }
        std::thread::sleep(pause);
        let ended = c.try_wait().unwrap();
        let _ = c.kill();
        let _ = c.wait();
        must!(ended.is_none(), "{}: it ended by itself", what);
        finished = false;
    } else {
        let n = match r.below(8) { 0 => 0, 1 => ib.len(), 2 => ib.len() - 1, 3 => ia.len().min(ib.len()), _ => r.below(ib.len() + 1) };
        what = format!("a process that saves {} blocks over {} and is ended by a write past byte {}", nb, if before { format!("{} blocks", na) } else { "nothing".into() }, n);
        note(what.clone());
        finished = run(&n.to_string()).wait().unwrap().success();
        must!(finished || n < ib.len(), "{}: it failed, and {} bytes are all there is", what, ib.len());
    }
    let found = std::fs::read(&path).ok();
    let kind = match &found {
        Some(f) if *f == ib => "the new index",
        Some(f) if *f == ia && (before || what.contains("turns")) => "the previous index",
        None if !before => "nothing",
        None => return Err(format!("{}: the index is gone", what)),
        Some(f) => return Err(format!("{}: the file has {} bytes, the previous index {}, the new one {}", what, f.len(), ia.len(), ib.len())),
    };
    must!(!finished || kind == "the new index", "{}: it went on to its end and left {}", what, kind);
    note(format!("{}; starting again", what));
    // started again, and once more, had it been stopped right after starting
    for k in ["next", "second"] {
        let want = found.as_ref().map(|_| if kind == "the new index" { nb } else { na });
        let s = IndexedStore::from_file(&path, &logger);
        must!(s.as_ref().map(|s| s.height()) == want, "{}: the {} start finds {:?} blocks, the file is {}", what, k, s.map(|s| s.height()), kind);
        must!(std::fs::read(&path).ok() == found, "{}: the {} start changed the index file", what, k);
    }
    // and the next save works
    b.to_file(&path, &logger);
    must!(std::fs::read(&path).ok() == Some(ib), "{}: the next save did not work", what);
    Ok(Case { nontrivial: !finished, text: format!("{}: {} {}", what, kind, seed) })
}
