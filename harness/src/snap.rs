//! C23: queries while an update is under way. One task per poll is let on for a few of tokio's operations (its budget is spent
//! beforehand), so that it can be held up at every lock it takes, and another one goes on.
use crate::chain::*;
use crate::core::*;
use crate::files::Scratch;
use crate::must;
use crate::node::*;
use bitcoin_indexer::address::Address;
use bitcoin_indexer::state::State;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::{Duration, Instant};
use tokio::sync::Semaphore;

/// outputs per address, or balances
#[derive(Clone, Debug, PartialEq)]
enum Answer {
    Lists(Vec<BTreeMap<Out, u64>>),
    Sums(Vec<u64>),
    /// an address and its outputs or balance
    List(usize, BTreeMap<Out, u64>),
    Sum(usize, u64),
    Twice(String),
}
type Running<'a> = Pin<Box<dyn Future<Output = Answer> + 'a>>;
struct Query<'a> {
    f: Running<'a>,
    c: usize,
    start: usize,
    late: bool,
}
struct Seen {
    c: usize,
    a: Answer,
    start: usize,
    end: usize,
    /// asked after the update had ended
    late: bool,
}
fn list(l: Vec<(bitcoin_indexer::transaction_output::TransactionOutput, u64)>) -> Result<BTreeMap<Out, u64>, String> {
    let m: BTreeMap<Out, u64> = l.iter().map(|(o, v)| ((o.hash, o.index), *v)).collect();
    if m.len() == l.len() { Ok(m) } else { Err(format!("{} outputs listed, {} different ones", l.len(), m.len())) }
}
fn query<'a>(r: &mut Rng, s: &'a State, all: &'a [Address], c: usize, sums: bool) -> Running<'a> {
    let i = r.below(all.len());
    match r.below(if sums { 6 } else { 3 }) {
        0 | 1 => Box::pin(async move {
            let l = s.transaction_outputs_array(all.to_vec(), c).await;
            let v: Result<Vec<_>, String> = l.into_iter().map(|(_, l)| list(l)).collect();
            v.map(Answer::Lists).unwrap_or_else(Answer::Twice)
        }),
        2 => Box::pin(async move {
            let mut l = vec![];
            s.iterate_transaction_outputs(&all[i], c, |o, v| l.push((o.clone(), v))).await;
            list(l).map(|l| Answer::List(i, l)).unwrap_or_else(Answer::Twice)
        }),
        3 | 4 => Box::pin(async move { Answer::Sums(s.balance_array(all.to_vec(), c).await.into_iter().map(|x| x.1).collect()) }),
        _ => Box::pin(async move { Answer::Sum(i, s.balance(&all[i], c).await) }),
    }
}
/// leaves `n` operations to whoever is polled next
fn spend(cx: &mut Context, sem: &Semaphore, n: usize) {
    for _ in 0..128usize.saturating_sub(n) {
        let mut f = Box::pin(sem.acquire());
        match f.as_mut().poll(cx) {
            Poll::Ready(p) => drop(p),
            Poll::Pending => break,
        }
    }
}
/// one update and queries at the same time: whether blocks were stored, the answers, and the steps taken
fn run(r: &mut Rng, s: &State, all: &[Address], n: usize, sums: bool, file: Option<&str>) -> Result<(bool, Vec<Seen>, usize), String> {
    let sem = Semaphore::new(1 << 20);
    let t0 = Instant::now();
    let mut update = Some(Box::pin(s.update()));
    let mut write: Option<Pin<Box<dyn Future<Output = ()>>>> = file.map(|f| Box::pin(s.write(f)) as Pin<Box<dyn Future<Output = ()>>>);
    let (mut moved, mut over) = (false, 0);
    let mut active: Vec<Query> = vec![];
    let mut seen: Vec<Seen> = vec![];
    let mut step = 0;
    let small = r.chance(3, 4);
    wait(std::future::poll_fn(move |cx| {
        step += 1;
        if t0.elapsed() > Duration::from_secs(30) {
            return Poll::Ready(Err(format!("no answer within 30 seconds: the update {}, {} queries wait", if over > 0 { "is over" } else { "is not" }, active.len())));
        }
        if over > 0 && over + 6 < step {
            // what still waits goes on to its end
            if let Some(w) = &mut write {
                if w.as_mut().poll(cx).is_ready() {
                    write = None;
                }
            } else if let Some(q) = active.first_mut() {
                if let Poll::Ready(a) = q.f.as_mut().poll(cx) {
                    seen.push(Seen { c: q.c, a, start: q.start, end: step, late: q.late });
                    active.remove(0);
                }
            } else {
                return Poll::Ready(Ok((moved, std::mem::take(&mut seen), step)));
            }
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let k = if small { 1 + r.below(2) } else { *r.pick(&[1usize, 2, 3, 128]) };
        spend(cx, &sem, k);
        if write.is_some() && r.chance(1, 12) {
            if write.as_mut().unwrap().as_mut().poll(cx).is_ready() {
                write = None;
            }
        } else if update.is_some() && r.chance(1, 2) {
            if let Poll::Ready(m) = update.as_mut().unwrap().as_mut().poll(cx) {
                moved = m;
                update = None;
                over = step;
            }
        } else if active.len() < 3 && r.chance(1, 2) {
            let c = r.below(n + 1);
            let mut q = Query { f: query(r, s, all, c, sums), c, start: step, late: over > 0 };
            match q.f.as_mut().poll(cx) {
                Poll::Ready(a) => seen.push(Seen { c, a, start: step, end: step, late: q.late }),
                Poll::Pending => active.push(q),
            }
        } else if !active.is_empty() {
            let i = r.below(active.len());
            if let Poll::Ready(a) = active[i].f.as_mut().poll(cx) {
                let q = active.swap_remove(i);
                seen.push(Seen { c: q.c, a, start: q.start, end: step, late: q.late });
            }
        }
        if step % 8 == 0 && update.is_some() {
            std::thread::sleep(Duration::from_micros(20));
        }
        cx.waker().wake_by_ref();
        Poll::Pending
    }))
}
/// per confirmations and address
type View = Vec<Vec<BTreeMap<Out, u64>>>;
fn says(v: &View, c: usize, a: &Answer) -> bool {
    let sum = |m: &BTreeMap<Out, u64>| total(m).unwrap_or(u64::MAX);
    match a {
        Answer::Lists(l) => *l == v[c],
        Answer::Sums(l) => l.len() == v[c].len() && l.iter().zip(&v[c]).all(|(x, m)| *x == sum(m)),
        Answer::List(i, l) => *l == v[c][*i],
        Answer::Sum(i, x) => *x == sum(&v[c][*i]),
        Answer::Twice(_) => false,
    }
}
pub fn c23(r: &mut Rng, _i: u64) -> Result<Case, String> {
    let (mut m, store) = start_with(r, |r| if r.chance(1, 2) { r.below(1000) as u64 } else { 5_000_000_000 });
    let n = 1 + r.below(4);
    let s = State::new(store, NODE.with(|n| n.client()), n);
    let scratch = Scratch::new();
    let file = scratch.0.join("index").to_string_lossy().into_owned();
    let rounds = 3 + r.below(5);
    let (mut text, mut mixed) = (format!("{} confirmations:", n), 0);
    for k in 0..rounds {
        let first = k == 0;
        let before: Vec<Utxos> = if first { vec![] } else { (0..=n).map(|c| m.view(c)).collect() };
        let (floor, least) = (m.stored.len(), m.stored.len() + n - 1);
        m.turn(r, floor, least, n);
        let what = format!("update {} at {} confirmations; before: {}", k, n, m.tell());
        note(what.clone());
        let txs: Vec<MTx> = m.txs.values().cloned().collect();
        let addrs = addresses(&txs, &m.people);
        let all: Vec<Address> = addrs.iter().map(repo_addr).collect();
        let f = if r.chance(1, 4) { Some(file.as_str()) } else { None };
        let (moved, seen, steps) = if first { (wait(s.update()), vec![], 0) } else { run(r, &s, &all, n, true, f).map_err(|e| format!("{}: {}", what, e))? };
        let log = NODE.with(|n| n.take_log())?;
        m.follow(&log)?;
        m.settle(n);
        let after: Vec<Utxos> = (0..=n).map(|c| m.view(c)).collect();
        let views = |u: &[Utxos]| -> View { u.iter().map(|u| addrs.iter().map(|a| by_addr(u, a)).collect()).collect() };
        let (b, a) = (views(&before), views(&after));
        let mut turned: Option<usize> = None;
        for q in &seen {
            let (old, new) = (says(&b, q.c, &q.a), says(&a, q.c, &q.a));
            let who = || format!("{} (blocks stored: {}); after: {}; a query at {} confirmations, steps {} to {} of {}", what, moved, m.tell(), q.c, q.start, q.end, steps);
            must!(old || new, "{}: the answer is neither that before the update nor that after it: {:.300}", who(), format!("{:?}", q.a));
            must!(new || !q.late, "{}: asked after the update, answered from before it", who());
            if old && !new {
                must!(turned.map(|t| q.start <= t).unwrap_or(true), "{}: answered from before the update, after another query was answered from after it", who());
            }
            if new && !old {
                turned = Some(turned.map(|t| t.min(q.end)).unwrap_or(q.end));
                mixed += 1;
            }
        }
        text += &format!(" {} answers in {} steps, stored: {};", seen.len(), steps, moved);
    }
    Ok(Case { nontrivial: mixed > 0, text: text + &hx(&m.tip()[..6]) })
}
