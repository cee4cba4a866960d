//@ file sequential_thread_pool.rs
//@ top
use std::collections::HashMap;
use vstd::std_specs::iter::IteratorSpec;
use crate::thread_pool::{results, shuffled, permutes};
broadcast use {crate::shim::shim_axioms, vstd::std_specs::hash::group_hash_axioms};
/// with the results `early` already at hand and `rest` still to arrive, the results from index `at` on are `s`
pub open spec fn delivers<Output>(early: Map<usize, Output>, rest: Seq<(usize, Output)>, at: int, s: Seq<Output>) -> bool {
    &&& at + s.len() <= usize::MAX
    &&& forall|k: usize| #[trigger] early.contains_key(k) ==> at <= k < at + s.len() && early[k] == s[k - at]
    &&& forall|j: int| 0 <= j < rest.len() ==> at <= (#[trigger] rest[j]).0 < at + s.len() && rest[j].1 == s[rest[j].0 - at] && !early.contains_key(rest[j].0)
    &&& forall|j: int, k: int| 0 <= j < k < rest.len() ==> (#[trigger] rest[j]).0 != (#[trigger] rest[k]).0
    &&& forall|k: usize| at <= k < at + s.len() ==> #[trigger] early.contains_key(k) || arrives(rest, k)
}
pub open spec fn can<I, O, F: Fn(I) -> O>(f: &F, x: &I) -> bool { f.requires((*x,)) }
pub open spec fn gives<I, O, F: Fn(I) -> O>(f: &F, x: &I, y: &O) -> bool { f.ensures((*x,), *y) }
pub open spec fn arrives<Output>(rest: Seq<(usize, Output)>, k: usize) -> bool { exists|j: int| 0 <= j < rest.len() && (#[trigger] rest[j]).0 == k }

pub open spec fn certain<Output>(early: Map<usize, Output>, rest: Seq<(usize, Output)>, at: int) -> bool { exists|s: Seq<Output>| #[trigger] delivers(early, rest, at, s) }

/// what will be delivered is determined
pub proof fn lemma_delivers_unique<Output>(early: Map<usize, Output>, rest: Seq<(usize, Output)>, at: int, s: Seq<Output>, t: Seq<Output>)
    requires 0 <= at, delivers(early, rest, at, s), delivers(early, rest, at, t), s.len() <= t.len(),
    ensures s == t,
{
    if s.len() < t.len() {
        let k = (at + s.len()) as usize;
        assert(early.contains_key(k) || arrives(rest, k));
        if !early.contains_key(k) { let j = choose|j: int| 0 <= j < rest.len() && (#[trigger] rest[j]).0 == k; assert(rest[j].0 == k); }
    }
    assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by {
        let k = (at + i) as usize;
        assert(early.contains_key(k) || arrives(rest, k));
        if !early.contains_key(k) { let j = choose|j: int| 0 <= j < rest.len() && (#[trigger] rest[j]).0 == k; assert(rest[j].0 == k); }
    }
    assert(s =~= t);
}
/// a result that arrives is put aside: nothing else changes
pub proof fn lemma_arrive<Output>(early: Map<usize, Output>, rest: Seq<(usize, Output)>, at: int, s: Seq<Output>)
    requires rest.len() > 0, certain(early, rest, at),
    ensures delivers(early, rest, at, s) == delivers(early.insert(rest[0].0, rest[0].1), rest.skip(1), at, s),
{
    let (e, r) = (early.insert(rest[0].0, rest[0].1), rest.skip(1));
    let t = choose|t: Seq<Output>| delivers(early, rest, at, t);
    assert(!early.contains_key(rest[0].0));
    assert forall|j: int| 1 <= j < rest.len() implies rest[j] == r[j - 1] by {}
    if delivers(early, rest, at, s) {
        assert forall|k: usize| at <= k < at + s.len() implies #[trigger] e.contains_key(k) || arrives(r, k) by {
            assert(early.contains_key(k) || arrives(rest, k));
            if !e.contains_key(k) { let j = choose|j: int| 0 <= j < rest.len() && (#[trigger] rest[j]).0 == k; assert(j > 0); assert(r[j - 1].0 == k); }
        }
        assert(delivers(e, r, at, s));
    }
    if delivers(e, r, at, s) {
        assert(e.contains_key(rest[0].0));
        assert forall|k: usize| #[trigger] early.contains_key(k) implies at <= k < at + s.len() && early[k] == s[k - at] by { assert(e.contains_key(k)); }
        assert forall|j: int| 0 <= j < rest.len() implies at <= (#[trigger] rest[j]).0 < at + s.len() && rest[j].1 == s[rest[j].0 - at] && !early.contains_key(rest[j].0) by {
            if j > 0 { assert(r[j - 1].0 == rest[j].0); assert(!e.contains_key(r[j - 1].0)); }
        }
        assert forall|j: int, k: int| 0 <= j < k < rest.len() implies (#[trigger] rest[j]).0 != (#[trigger] rest[k]).0 by {
            assert(r[k - 1].0 == rest[k].0); assert(!e.contains_key(r[k - 1].0));
            if j > 0 { assert(r[j - 1].0 == rest[j].0); }
        }
        assert forall|k: usize| at <= k < at + s.len() implies #[trigger] early.contains_key(k) || arrives(rest, k) by {
            assert(e.contains_key(k) || arrives(r, k));
            if !e.contains_key(k) { let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j]).0 == k; assert(rest[j + 1].0 == k); }
            else if k == rest[0].0 { assert(arrives(rest, k)); }
        }
        assert(delivers(early, rest, at, s));
    }
}
/// the next result leaves
pub proof fn lemma_leave<Output>(early: Map<usize, Output>, rest: Seq<(usize, Output)>, at: usize, s: Seq<Output>)
    requires early.contains_key(at), certain(early, rest, at as int),
    ensures
        delivers(early.remove(at), rest, at + 1, s) ==> delivers(early, rest, at as int, seq![early[at]] + s),
        delivers(early, rest, at as int, s) ==> s.len() > 0 && delivers(early.remove(at), rest, at + 1, s.skip(1)),
{
    let e = early.remove(at);
    let t0 = choose|t: Seq<Output>| delivers(early, rest, at as int, t);
    assert(delivers(early, rest, at as int, t0));
    if delivers(e, rest, at + 1, s) {
        let t = seq![early[at]] + s;
        assert forall|k: usize| #[trigger] early.contains_key(k) implies at <= k < at + t.len() && early[k] == t[k - at] by { if k != at { assert(e.contains_key(k)); } }
        assert forall|j: int| 0 <= j < rest.len() implies at <= (#[trigger] rest[j]).0 < at + t.len() && rest[j].1 == t[rest[j].0 - at] && !early.contains_key(rest[j].0) by { assert(!e.contains_key(rest[j].0)); }
        assert forall|k: usize| at <= k < at + t.len() implies #[trigger] early.contains_key(k) || arrives(rest, k) by { if k != at { assert(e.contains_key(k) || arrives(rest, k)); } }
        assert(delivers(early, rest, at as int, t));
    }
    if delivers(early, rest, at as int, s) {
        let t = s.skip(1);
        assert(e.contains_key(at) == false);
        assert forall|j: int| 0 <= j < rest.len() implies at + 1 <= (#[trigger] rest[j]).0 < at + 1 + t.len() && rest[j].1 == t[rest[j].0 - (at + 1)] && !e.contains_key(rest[j].0) by { assert(!early.contains_key(rest[j].0)); }
        assert forall|k: usize| at + 1 <= k < at + 1 + t.len() implies #[trigger] e.contains_key(k) || arrives(rest, k) by { assert(early.contains_key(k) || arrives(rest, k)); }
        assert(delivers(e, rest, at + 1, t));
    }
}
/// nothing has arrived yet
pub proof fn lemma_begin<Output>(outs: Seq<(usize, Output)>, rest: Seq<(usize, Output)>, p: Seq<int>, early: Map<usize, Output>)
    requires
        permutes(p, outs, rest), outs.len() == rest.len() <= usize::MAX,
        forall|i: int| 0 <= i < outs.len() ==> (#[trigger] outs[i]).0 == i,
        early == Map::<usize, Output>::empty(),
    ensures delivers(early, rest, 0, seconds(outs)),
{
    let s = seconds(outs);
    assert forall|j: int| 0 <= j < rest.len() implies 0 <= (#[trigger] rest[j]).0 < s.len() && rest[j].1 == s[rest[j].0 as int] by { assert(rest[j] == outs[p[j]]); }
    assert forall|j: int, k: int| 0 <= j < k < rest.len() implies (#[trigger] rest[j]).0 != (#[trigger] rest[k]).0 by { assert(rest[j] == outs[p[j]] && rest[k] == outs[p[k]]); assert(p[j] != p[k]); }
    assert forall|k: usize| 0 <= k < s.len() implies #[trigger] early.contains_key(k) || arrives(rest, k) by {
        assert(p.contains(k as int));
        let j = p.index_of(k as int);
        assert(rest[j] == outs[p[j]]);
    }
}
impl<Output> XSource for SequentialThreadPool<Output> {
    type Item = Output;
    open spec fn swf(&self) -> bool { self.pwf() }
    open spec fn may(&self, outs: Seq<Output>) -> bool { self.pmay(outs) }
    open spec fn left(&self) -> nat { self.outputs@.len() + self.threadpool.rest().len() }
    fn next(&mut self) -> (r: Option<Output>) { SequentialThreadPool::next(self) }
}
/// a `for` loop over the pool: everything it delivers, in order (x_all proves that for repeated calls of `next`)
impl<Output> IntoIterator for SequentialThreadPool<Output> {
    type Item = Output;
    type IntoIter = std::vec::IntoIter<Output>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: std::vec::IntoIter<Output>)
        ensures
            r.obeys_prophetic_iter_laws(), r.decrease() is Some,
            self.pwf() ==> self.pmay(r.remaining()),
    { self.x_all().into_iter() }
}
//@ impl type SequentialThreadPool
#[verifier::reject_recursive_types(Output)]
//@ impl SequentialThreadPool
pub open spec fn pmay(&self, s: Seq<Output>) -> bool { delivers(self.outputs@, self.threadpool.rest(), self.output_index as int, s) }
pub open spec fn pwf(&self) -> bool { certain(self.outputs@, self.threadpool.rest(), self.output_index as int) && self.outputs@.dom().finite() }
//@ impl inherent SequentialThreadPool as Iterator
//@ fn SequentialThreadPool::new
//@ param inputs: impl XSource<Item = Input>
//@ ret r
requires
    threads > 0,
    inputs.swf(),
    forall|ins: Seq<Input>| #[trigger] inputs.may(ins) ==> forall|i: int| 0 <= i < ins.len() ==> process_fn.requires((#[trigger] ins[i],)),
ensures
    r.pwf(),
    exists|ins: Seq<Input>, outs: Seq<Output>| #[trigger] inputs.may(ins) && #[trigger] results(process_fn, ins, outs) && r.pmay(outs) && (forall|s: Seq<Output>| r.pmay(s) ==> s == outs),
//@ at start
proof {
    assert forall|ps: Seq<(usize, Input)>| #[trigger] inputs.may(seconds(ps)) implies forall|i: int| 0 <= i < ps.len() ==> process_fn.requires(((#[trigger] ps[i]).1,)) by {
        assert forall|i: int| 0 <= i < ps.len() implies process_fn.requires(((#[trigger] ps[i]).1,)) by { assert(seconds(ps)[i] == ps[i].1); }
    }
}
let ghost (f, src) = (process_fn, inputs);
//@ at ret
proof {
    let rest = __vx_r.threadpool.rest();
    let early = __vx_r.outputs@;
    assert forall|ps: Seq<(usize, Input)>, rs: Seq<(usize, Output)>| #![all_triggers] results(__vx_c0, ps, rs) && shuffled(rs, rest) && src.may(seconds(ps)) && ps.len() <= usize::MAX && (forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).0 == i)
        implies results(f, seconds(ps), seconds(rs)) && delivers(early, rest, 0, seconds(rs)) by {
        let p = choose|p: Seq<int>| #[trigger] permutes(p, rs, rest);
        assert forall|i: int| 0 <= i < rs.len() implies (#[trigger] rs[i]).0 == i && f.ensures((ps[i].1,), rs[i].1) by { assert(__vx_c0.ensures((ps[i],), rs[i])); }
        lemma_begin(rs, rest, p, early);
    }
    assert forall|s: Seq<Output>, t: Seq<Output>| #[trigger] __vx_r.pmay(s) && #[trigger] __vx_r.pmay(t) implies s == t by {
        if s.len() <= t.len() { lemma_delivers_unique(early, rest, 0, s, t); } else { lemma_delivers_unique(early, rest, 0, t, s); }
    }
}
//@ closure 0 o: (usize, Output) | (usize, Input)
requires can(&process_fn, &__p0.1),
ensures o.0 == __p0.0 && gives(&process_fn, &__p0.1, &o.1),
//@ fn SequentialThreadPool as Iterator::next
//@ ret r
requires old(self).pwf(),
ensures
    final(self).pwf(),
    match r {
        Some(x) => final(self).outputs@.len() + final(self).threadpool.rest().len() < old(self).outputs@.len() + old(self).threadpool.rest().len()
            && forall|s: Seq<Output>| #[trigger] final(self).pmay(s) ==> old(self).pmay(seq![x] + s),
        None => old(self).pmay(Seq::empty()),
    },
//@ at start
let ghost mut pre = *self;
//@ loop 0
invariant
    self.pwf(),
    self.outputs@.len() + self.threadpool.rest().len() == old(self).outputs@.len() + old(self).threadpool.rest().len(),
    forall|s: Seq<Output>| #[trigger] self.pmay(s) == old(self).pmay(s),
decreases self.threadpool.rest().len(),
//@ at loop 0 start
proof {
    pre = *self;
    let (early, rest, at) = (self.outputs@, self.threadpool.rest(), self.output_index);
    let t = choose|t: Seq<Output>| delivers(early, rest, at as int, t);
    assert(delivers(early, rest, at as int, t));
    assert(self.pmay(t) && self.pmay(Seq::empty()) == old(self).pmay(Seq::empty()));
    if early.contains_key(at) {
        lemma_leave(early, rest, at, t);
        assert(at + 1 <= usize::MAX);
        assert forall|s: Seq<Output>| #[trigger] delivers(early.remove(at), rest, at + 1, s) implies old(self).pmay(seq![early[at]] + s) by {
            lemma_leave(early, rest, at, s);
            assert(self.pmay(seq![early[at]] + s));
        }
    } else {
        assert(early.remove(at) =~= early);
        if rest.len() > 0 {
            lemma_arrive(early, rest, at as int, t);
            assert forall|s: Seq<Output>| #[trigger] delivers(early.insert(rest[0].0, rest[0].1), rest.skip(1), at as int, s) == self.pmay(s) by { lemma_arrive(early, rest, at as int, s); }
        } else {
            if t.len() > 0 { assert(early.contains_key(at) || arrives(rest, at)); }
            assert(t =~= Seq::empty());
        }
    }
}
//@ at loop 0 end
proof { assert(pre.threadpool.rest().skip(1) =~= self.threadpool.rest()); }
