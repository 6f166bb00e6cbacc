// Stub iterator: the sequence of items is fixed at creation; order is whatever the
// collection's contract says (unspecified for hash collections).
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { x: std::vec::IntoIter<T> }
impl<T> VIter<T> {
    pub uninterp spec fn items(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn vhas_next(&self) -> (b: bool) ensures b == (self.pos() < self.items().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vnext(&mut self) -> (r: T)
        requires 0 <= old(self).pos() < old(self).items().len()
        ensures final(self).items() == old(self).items(), final(self).pos() == old(self).pos() + 1,
            r == old(self).items()[old(self).pos()]
    { unimplemented!() }
}
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn collect<B: VCollect<T>>(self) -> (r: B) ensures B::vcollected(self.items().skip(self.pos()), r), self.pos() == 0 ==> B::vcollected(self.items(), r) { unimplemented!() }
}
// what collect() builds from the items, in order
pub trait VCollect<T>: Sized { spec fn vcollected(s: Seq<T>, r: Self) -> bool; }
impl<T> VCollect<T> for Vec<T> { open spec fn vcollected(s: Seq<T>, r: Self) -> bool { r@ == s } }
pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
// Clone of the elements returns an equal value
impl<'a, T> VIter<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VIter<T>) ensures r.pos() == self.pos(), r.items() == derefs(self.items()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vcloned(self) -> (r: VIter<T>) ensures r.pos() == self.pos(), r.items() == derefs(self.items()) { unimplemented!() }
}
pub trait VIntoIter: Sized {
    type Item;
    spec fn vitems_ok(self, s: Seq<Self::Item>) -> bool;
    fn vinto(self) -> (r: VIter<Self::Item>) ensures self.vitems_ok(r.items()), r.pos() == 0;
}
impl VIntoIter for std::ops::Range<usize> {
    type Item = usize;
    open spec fn vitems_ok(self, s: Seq<usize>) -> bool {
        s.len() == (if self.end >= self.start { self.end - self.start } else { 0 })
        && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == self.start + i
    }
    #[verifier::external_body]
    fn vinto(self) -> (r: VIter<usize>) { unimplemented!() }
}
impl<T> VIntoIter for Vec<T> {
    type Item = T;
    open spec fn vitems_ok(self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body]
    fn vinto(self) -> (r: VIter<T>) { unimplemented!() }
}
impl<'a, T> VIntoIter for &'a Vec<T> {
    type Item = &'a T;
    open spec fn vitems_ok(self, s: Seq<&'a T>) -> bool {
        s.len() == self@.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == self@[i]
    }
    #[verifier::external_body]
    fn vinto(self) -> (r: VIter<&'a T>) { unimplemented!() }
}
impl<'a, T> VIntoIter for &'a [T] {
    type Item = &'a T;
    open spec fn vitems_ok(self, s: Seq<&'a T>) -> bool {
        s.len() == self@.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == self@[i]
    }
    #[verifier::external_body]
    fn vinto(self) -> (r: VIter<&'a T>) { unimplemented!() }
}
impl<'a, 'b, T: ?Sized> VIntoIter for &'a &'b T where &'b T: VIntoIter {
    type Item = <&'b T as VIntoIter>::Item;
    open spec fn vitems_ok(self, s: Seq<Self::Item>) -> bool { VIntoIter::vitems_ok(*self, s) }
    #[verifier::external_body]
    fn vinto(self) -> (r: VIter<Self::Item>) { unimplemented!() }
}
// sorting with a comparison function keeps the elements (the order itself is not modelled)
pub open spec fn permutes(pi: Seq<int>, n: int) -> bool {
    &&& pi.len() == n && forall|i: int| 0 <= i < n ==> 0 <= #[trigger] pi[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] pi[i] != #[trigger] pi[j]
    &&& forall|j: int| 0 <= j < n ==> #[trigger] pi.contains(j)
}
pub open spec fn permuted<T>(a: Seq<T>, b: Seq<T>, pi: Seq<int>) -> bool { a.len() == b.len() && permutes(pi, b.len() as int) && forall|i: int| 0 <= i < b.len() ==> #[trigger] a[i] == b[pi[i]] }
pub trait VSortBy<T> {
    spec fn vseq(&self) -> Seq<T>;
    fn vsort_by_any<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F)
        ensures exists|pi: Seq<int>| #[trigger] permuted(final(self).vseq(), old(self).vseq(), pi);
}
impl<T> VSortBy<T> for Vec<T> {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vsort_by_any<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
}
