use crate::core::*;
use crate::must;
use bitcoin_indexer::batcher::Batcher;
use bitcoin_indexer::sequential_thread_pool::SequentialThreadPool;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;

pub fn c13(r: &mut Rng, i: u64) -> Result<Case, String> {
    if i == 2 {
        // a slow job at the end, and one at the start
        for slow in [0, 5usize] {
            note(format!("6 inputs on 2 threads, input {} takes three seconds", slow));
            let pool = SequentialThreadPool::new(2, move |i: usize| { if i == slow { std::thread::sleep(Duration::from_millis(3000)); } i }, 0..6usize);
            let got: Vec<usize> = pool.collect();
            must!(got == (0..6).collect::<Vec<_>>(), "6 inputs on 2 threads, input {} takes three seconds: delivered {:?}", slow, got);
        }
        note("6 inputs on 1 thread, four seconds before the last of them".to_string());
        let inputs = (0..6usize).map(|i| { if i == 5 { std::thread::sleep(Duration::from_millis(4000)); } i });
        let got: Vec<usize> = SequentialThreadPool::new(1, |i: usize| i, inputs).collect();
        must!(got == (0..6).collect::<Vec<_>>(), "6 inputs on 1 thread, four seconds before the last of them: delivered {:?}", got);
    }
    if i == 1 {
        // a job that fails: what comes after it must not be missing silently
        for threads in [1, 2, 4usize] {
            for bad in [0, 3, 5usize] {
                let what = format!("6 inputs on {} threads, the work on input {} panics", threads, bad);
                note(what.clone());
                let got = guarded(|| SequentialThreadPool::new(threads, move |i: usize| { if i == bad { panic!("no result for input {}", i); } i }, 0..6usize).collect::<Vec<usize>>());
                must!(got.is_err(), "{}: delivered {:?} and then ended as if that were all", what, got);
            }
        }
    }
    let n = match r.below(10) { 0 => 0, 1 => 1, 2 => 100 + r.below(300), _ => 1 + r.below(30) };
    let size = match r.below(8) { 0 => 1, 1 => n.max(1), 2 => n + 1, 3 => usize::MAX / 4, 4 => n.saturating_sub(1).max(1), _ => 1 + r.below(8) };
    let items: Vec<u64> = (0..n).map(|_| r.next() % 50).collect();
    let what = format!("{} items in batches of {}", n, size);
    note(what.clone());
    let batches: Vec<Vec<u64>> = Batcher::new(items.clone(), size).collect();
    must!(batches.iter().all(|b| !b.is_empty() && b.len() <= size), "{}: batch sizes {:?}", what, batches.iter().map(|b| b.len()).collect::<Vec<_>>());
    must!(batches.concat() == items, "{}: the batches are {:?}, the list {:?}", what, batches, items);
    let mut b = Batcher::new(items.clone(), size);
    for _ in 0..batches.len() {
        b.next();
    }
    must!(b.next().is_none() && b.next().is_none(), "{}: more after the end", what);
    // on threads
    let threads = 1 + r.below(9);
    let slow = r.below(4);
    let calls = Arc::new(AtomicUsize::new(0));
    let delays: Vec<u64> = (0..n + 1).map(|i| match slow { 0 => 0, 1 => if i % threads == 0 { 300 } else { 0 }, 2 => r.next() % 200, _ => if i < 2 { 2000 } else { 0 } }).collect();
    let what = format!("{} inputs on {} threads, delays {:?}", n, threads, &delays[..n.min(20)]);
    note(what.clone());
    let ins: Vec<(usize, u64)> = items.iter().cloned().enumerate().collect();
    let (c, d) = (calls.clone(), delays.clone());
    let pool = SequentialThreadPool::new(
        threads,
        move |(i, x): (usize, u64)| {
            c.fetch_add(1, Ordering::SeqCst);
            if d[i] > 0 {
                std::thread::sleep(Duration::from_micros(d[i]));
            }
            (i, x * 3 + 1)
        },
        ins.into_iter(),
    );
    let got: Vec<(usize, u64)> = pool.collect();
    let want: Vec<(usize, u64)> = items.iter().enumerate().map(|(i, x)| (i, x * 3 + 1)).collect();
    must!(got == want, "{}: delivered {:?}, expected {:?}", what, got, want);
    must!(calls.load(Ordering::SeqCst) == n, "{}: {} calls", what, calls.load(Ordering::SeqCst));
    // batches of a batcher, as the index is built
    let k = 1 + r.below(5);
    let pool = SequentialThreadPool::new(threads, move |b: Vec<u64>| { if b[0] % 3 == 0 { std::thread::sleep(Duration::from_micros(100)); } b }, Batcher::new(items.clone(), k));
    let got: Vec<Vec<u64>> = pool.collect();
    must!(got.concat() == items && got.iter().all(|b| !b.is_empty() && b.len() <= k), "{} items in batches of {} on {} threads: delivered {:?}", n, k, threads, got);
    Ok(Case { nontrivial: n > 1, text: format!("{} size {} {}", items.len(), size, what) })
}
