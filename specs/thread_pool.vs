//@ file thread_pool.rs
//@ drop ThreadPool
//@ drop ThreadPool as Iterator
//@ top
use vstd::std_specs::iter::IteratorSpec;
broadcast use crate::shim::shim_axioms;
/// Assumed, not proved (threads, channels and locks are outside the verifier's reach; the bounded check of C13
/// runs the real pool): every input is processed exactly once and every result is delivered exactly once, in an
/// order that depends on the schedule.
#[verifier::external_body]
#[verifier::reject_recursive_types(Output)]
pub struct ThreadPool<Output> { opaque: core::marker::PhantomData<Output> }
/// `outs` are results of `f` on `ins`, in order
pub open spec fn results<Input, Output, F: Fn(Input) -> Output>(f: F, ins: Seq<Input>, outs: Seq<Output>) -> bool {
    outs.len() == ins.len() && forall|i: int| 0 <= i < ins.len() ==> f.ensures((#[trigger] ins[i],), outs[i])
}
/// the same elements in another order
pub open spec fn shuffled<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && exists|p: Seq<int>| #[trigger] permutes(p, a, b) }
pub open spec fn permutes<T>(p: Seq<int>, a: Seq<T>, b: Seq<T>) -> bool {
    &&& p.len() == b.len()
    &&& forall|j: int| 0 <= j < p.len() ==> 0 <= #[trigger] p[j] < a.len() && b[j] == a[p[j]]
    &&& forall|j: int, k: int| 0 <= j < k < p.len() ==> #[trigger] p[j] != #[trigger] p[k]
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] p.contains(i)
}
impl<Output> ThreadPool<Output> {
    /// the results still to be delivered, in the order in which they will arrive
    pub uninterp spec fn rest(&self) -> Seq<Output>;
    #[verifier::external_body]
    pub fn new<Input, F: Fn(Input) -> Output, I: XSource<Item = Input>>(threads: usize, process_fn: F, inputs: I) -> (r: Self)
        requires
            threads > 0,
            inputs.swf(),
            forall|ins: Seq<Input>| #[trigger] inputs.may(ins) ==> forall|i: int| 0 <= i < ins.len() ==> process_fn.requires((#[trigger] ins[i],)),
        ensures
            exists|ins: Seq<Input>, outs: Seq<Output>| #[trigger] inputs.may(ins) && #[trigger] results(process_fn, ins, outs) && shuffled(outs, r.rest()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Output>)
        ensures
            match r {
                Some(x) => old(self).rest() == seq![x] + final(self).rest(),
                None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            },
    { unimplemented!() }
}
impl<Output> IntoIterator for ThreadPool<Output> {
    type Item = Output;
    type IntoIter = std::vec::IntoIter<Output>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: std::vec::IntoIter<Output>)
        ensures
            r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining() == self.rest(),
    { unimplemented!() }
}
