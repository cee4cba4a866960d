//@ file batcher.rs
//@ top
broadcast use crate::shim::shim_axioms;
/// the batches one after another
pub open spec fn cat<T>(b: Seq<Vec<T>>) -> Seq<T>
    decreases b.len()
{ if b.len() == 0 { Seq::empty() } else { b[0]@ + cat(b.drop_first()) } }
pub proof fn lemma_cat<T>(b: Seq<Vec<T>>, k: int)
    requires 0 <= k < b.len(),
    ensures cat(b.take(k + 1)) == cat(b.take(k)) + b[k]@, cat(b) == cat(b.take(k)) + b[k]@ + cat(b.skip(k + 1)),
    decreases b.len(),
{
    if k == 0 {
        assert(b.take(1).drop_first() =~= Seq::empty());
        assert(cat(b.take(1).drop_first()) =~= Seq::empty());
        assert(b.take(1)[0] == b[0]);
        assert(cat(b.take(1)) =~= b[0]@);
        assert(b.take(0) =~= Seq::empty());
        assert(cat(b.take(0)) + b[0]@ =~= b[0]@);
        assert(b.skip(1) =~= b.drop_first());
        assert(cat(b) =~= cat(b.take(k)) + b[k]@ + cat(b.skip(k + 1)));
    } else {
        let d = b.drop_first();
        lemma_cat(d, k - 1);
        assert(b.take(k + 1).drop_first() =~= d.take(k));
        assert(b.take(k).drop_first() =~= d.take(k - 1));
        assert(b.skip(k + 1) =~= d.skip(k));
        assert(cat(b.take(k + 1)) =~= cat(b.take(k)) + b[k]@);
        assert(cat(b) =~= cat(b.take(k)) + b[k]@ + cat(b.skip(k + 1)));
    }
}
/// `b` cuts `items` into consecutive non-empty batches of at most `size`
pub open spec fn cuts<T: Clone>(b: Seq<Vec<T>>, items: Seq<T>, size: int) -> bool {
    cloned_seq(items, cat(b)) && forall|i: int| 0 <= i < b.len() ==> 0 < (#[trigger] b[i])@.len() <= size
}
impl<T: Clone> XSource for Batcher<T> {
    type Item = Vec<T>;
    open spec fn swf(&self) -> bool { self.bwf() }
    open spec fn may(&self, outs: Seq<Vec<T>>) -> bool { cuts(outs, self.todo(), self.size as int) }
    open spec fn left(&self) -> nat { self.todo().len() }
    fn next(&mut self) -> (r: Option<Vec<T>>) { Batcher::next(self) }
}
//@ impl inherent Batcher as Iterator
pub open spec fn todo(&self) -> Seq<T> { self.items@.skip(self.offset as int) }
pub open spec fn bwf(&self) -> bool {
    &&& self.size >= 1 && self.offset <= self.items@.len() && self.items@.len() <= usize::MAX / 2
    &&& self.offset == 0 || self.offset == self.items@.len() || self.size <= self.offset
}
//@ fn Batcher::new
//@ ret r
requires size >= 1, items@.len() <= usize::MAX / 2,
ensures r.bwf(), r.todo() == items@, r.size == size,
//@ fn Batcher as Iterator::next
//@ ret r
requires old(self).bwf(),
ensures
    final(self).bwf(), final(self).size == old(self).size,
    match r {
        Some(b) => final(self).todo().len() < old(self).todo().len() && 0 < b@.len() <= old(self).size
            && forall|rest: Seq<Vec<T>>| #[trigger] cuts(rest, final(self).todo(), final(self).size as int) ==> cuts(seq![b] + rest, old(self).todo(), old(self).size as int),
        None => old(self).todo().len() == 0 && cuts(Seq::<Vec<T>>::empty(), old(self).todo(), old(self).size as int),
    },
//@ at start
let ghost before = *self;
assert(self.items.len() == self.items@.len());
//@ at ret
proof {
    if __vx_r is Some {
        let b = __vx_r->0;
        let (size, todo, left) = (before.size as int, before.todo(), self.todo());
        assert(left =~= todo.skip(b@.len() as int));
        assert forall|rest: Seq<Vec<T>>| #[trigger] cuts(rest, left, size) implies cuts(seq![b] + rest, todo, size) by {
            let all = seq![b] + rest;
            assert(all.drop_first() =~= rest);
            assert forall|i: int| 0 <= i < todo.len() implies call_ensures(T::clone, (&#[trigger] todo[i],), cat(all)[i]) by {
                if i < b@.len() { assert(todo.take(b@.len() as int)[i] == todo[i]); assert(cat(all)[i] == b@[i]); } else { assert(left[i - b@.len()] == todo[i]); assert(cat(all)[i] == cat(rest)[i - b@.len()]); }
            }
            assert forall|i: int| 0 <= i < all.len() implies 0 < (#[trigger] all[i])@.len() <= size by { if i > 0 { assert(all[i] == rest[i - 1]); } }
        }
    }
}
