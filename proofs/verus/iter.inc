// Iteration: the items in order, each once (std's iterators over Vec and slices).
pub struct VecIter<T> { pub v: Ghost<Seq<T>>, pub i: Ghost<int> }
pub trait ModelIter<T>: Sized { spec fn items(&self) -> Seq<T>; fn model_iter(self) -> (r: VecIter<T>) ensures r.v@ == self.items(), r.i@ == 0; }
impl<T> ModelIter<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn model_iter(self) -> (r: VecIter<T>) { unimplemented!() }
}
impl<T> VecIter<T> {
    #[verifier::external_body]
    pub fn index(&self) -> (r: usize) ensures r == self.i@ { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).i@ <= old(self).v@.len()
        ensures final(self).v@ == old(self).v@,
            r is None ==> old(self).i@ == old(self).v@.len() && final(self).i@ == old(self).i@,
            r matches Some(x) ==> old(self).i@ < old(self).v@.len() && x == old(self).v@[old(self).i@] && final(self).i@ == old(self).i@ + 1,
    { unimplemented!() }
}
pub trait ModelIterRef<T> {
    spec fn ref_items(&self) -> Seq<T>;
    fn model_iter_ref<'a>(&'a self) -> (r: VecIter<&'a T>)
        ensures r.i@ == 0, r.v@.len() == self.ref_items().len(), forall|i: int| 0 <= i < r.v@.len() ==> *(#[trigger] r.v@[i]) == self.ref_items()[i];
}
impl<T> ModelIterRef<T> for Vec<T> {
    open spec fn ref_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn model_iter_ref<'a>(&'a self) -> (r: VecIter<&'a T>) { unimplemented!() }
}
impl<T> ModelIterRef<T> for [T] {
    open spec fn ref_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn model_iter_ref<'a>(&'a self) -> (r: VecIter<&'a T>) { unimplemented!() }
}
