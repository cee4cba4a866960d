use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Case {
    pub nontrivial: bool,
    pub text: String,
}
/// one case: seeded generator, case number
pub type Step = fn(&mut Rng, u64) -> Result<Case, String>;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, index: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ index.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ 0x1234_5678_9abc_def1);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0 <= r < n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// lo <= r <= hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    pub fn array<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0; N];
        for x in a.iter_mut() {
            *x = self.byte();
        }
        a
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

thread_local! {
    static NOTE: RefCell<String> = RefCell::new(String::new());
    static PANIC: RefCell<String> = RefCell::new(String::new());
}
/// what the current case is about to do, for reports about panics
pub fn note(s: String) {
    NOTE.with(|n| *n.borrow_mut() = s);
}
/// run code of the repository; Err is the panic message
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| p.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

#[macro_export]
macro_rules! must {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

pub fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn esc(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn run_case(step: Step, seed: u64, index: u64) -> Result<Case, String> {
    let mut rng = Rng::new(seed, index);
    note(String::new());
    match guarded(|| step(&mut rng, index)) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {} [while: {}]", p, NOTE.with(|n| n.borrow().clone()))),
    }
}

pub fn main(props: &[(&str, Step)]) {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let seconds: f64 = get("--seconds").and_then(|s| s.parse().ok()).unwrap_or(5.0);
    let limit: u64 = get("--cases").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let threads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let step = match props.iter().find(|p| p.0 == id) {
        Some(p) => p.1,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    };
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string().replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
    if let Some(r) = get("--replay") {
        let (s, i) = r.split_once(':').unwrap();
        match run_case(step, s.parse().unwrap(), i.parse().unwrap()) {
            Ok(c) => println!("HOLDS {}", c.text),
            Err(e) => {
                println!("FAILS {}", e);
                std::process::exit(1);
            }
        }
        return;
    }
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let nontrivial = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let failure: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                let mut local = HashSet::new();
                while !stop.load(Ordering::Relaxed) {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= limit || t0.elapsed() > Duration::from_secs_f64(seconds) {
                        break;
                    }
                    match run_case(step, seed, i) {
                        Ok(c) => {
                            done.fetch_add(1, Ordering::Relaxed);
                            if c.nontrivial && local.insert(fnv(&c.text)) {
                                nontrivial.fetch_add(1, Ordering::Relaxed);
                                if local.len() % 97 == 1 {
                                    let mut sm = samples.lock().unwrap();
                                    if sm.len() < 5 {
                                        sm.push(c.text.chars().take(400).collect());
                                    }
                                }
                            }
                        }
                        Err(e) => {
                            let mut f = failure.lock().unwrap();
                            if f.as_ref().map(|x| i < x.0).unwrap_or(true) {
                                *f = Some((i, e));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                seen.lock().unwrap().extend(local);
            });
        }
    });
    let f = failure.into_inner().unwrap();
    let sm = samples.into_inner().unwrap();
    println!(
        "{{\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"failure\":{}}}",
        esc(&id),
        seed,
        done.load(Ordering::Relaxed),
        seen.into_inner().unwrap().len(),
        sm.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        match f {
            None => "null".to_string(),
            Some((i, e)) => format!("{{\"index\":{},\"text\":{}}}", i, esc(&e)),
        }
    );
    // threads of the code under test may still be running
    std::process::exit(0);
}
