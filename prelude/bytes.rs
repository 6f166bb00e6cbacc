// Byte strings of numbers, least significant byte first.
global size_of usize == 8;
pub open spec fn le(n: int, w: nat) -> Seq<u8> decreases w { if w == 0 { Seq::empty() } else { seq![(n % 256) as u8] + le(n / 256, (w - 1) as nat) } }
pub open spec fn padded(b: Seq<u8>, w: int) -> Seq<u8> { if b.len() >= w { b } else { b + Seq::new((w - b.len()) as nat, |i: int| 0u8) } }
pub proof fn lemma_le_len(n: int, w: nat) ensures le(n, w).len() == w decreases w { if w > 0 { lemma_le_len(n / 256, (w - 1) as nat); } }
pub broadcast proof fn lemma_le_len_b(n: int, w: nat) ensures (#[trigger] le(n, w)).len() == w { lemma_le_len(n, w); }
pub proof fn lemma_le_zero(w: nat) ensures le(0, w) =~= Seq::new(w, |i: int| 0u8) decreases w { if w > 0 { lemma_le_zero((w - 1) as nat); } }
pub proof fn lemma_minle_len(n: int, w: nat) requires 0 <= n < pow256(w), w >= 1 ensures 1 <= minle(n).len() <= w decreases w
{ if n >= 256 { if w == 1 { assert(pow256(1) == 256 * pow256(0)); } lemma_minle_len(n / 256, (w - 1) as nat); } }
pub proof fn lemma_minle(n: int, w: nat) requires 0 <= n < pow256(w), w >= 1 ensures padded(minle(n), w as int) == le(n, w) decreases w
{
    lemma_minle_len(n, w);
    if n < 256 { assert(n / 256 == 0); lemma_le_zero((w - 1) as nat); assert(padded(minle(n), w as int) =~= le(n, w)); }
    else { if w == 1 { assert(pow256(1) == 256 * pow256(0)); } lemma_minle(n / 256, (w - 1) as nat); lemma_minle_len(n / 256, (w - 1) as nat);
        assert(padded(minle(n), w as int) =~= seq![(n % 256) as u8] + padded(minle(n / 256), w - 1)); }
}
pub proof fn lemma_minle_val(n: int) requires n >= 0 ensures le_val(minle(n)) == n, minle(n).len() >= 1 decreases n
{ if n >= 256 { lemma_minle_val(n / 256); assert(minle(n).skip(1) =~= minle(n / 256)); } else { assert(minle(n).skip(1) =~= Seq::<u8>::empty()); assert(le_val(Seq::<u8>::empty()) == 0); } }
// the number a fixed-width field holds
pub proof fn lemma_le_val(n: int, w: nat) requires 0 <= n < pow256(w) ensures le_val(le(n, w)) == n decreases w
{ if w > 0 { lemma_le_val(n / 256, (w - 1) as nat); assert(le(n, w).skip(1) =~= le(n / 256, (w - 1) as nat)); } }
// byte vectors are equal when their bytes are; no vector is longer than isize::MAX
pub uninterp spec fn bkey(s: Seq<u8>) -> Vec<u8>;
pub broadcast proof fn axiom_bkey(v: Vec<u8>) ensures #[trigger] bkey(v@) == v { admit(); }
pub broadcast proof fn axiom_bkey_view(s: Seq<u8>) ensures #[trigger] bkey(s)@ == s { admit(); }
#[verifier::external_body]
pub proof fn axiom_vec_len(v: &Vec<u8>) ensures v@.len() <= isize::MAX { }
#[verifier::external_body]
pub proof fn axiom_slice_len(v: &[u8]) ensures v@.len() <= isize::MAX { }
pub trait VBytes { spec fn bs(&self) -> Seq<u8>; fn vbytes_ref(&self) -> (r: &[u8]) ensures r@ == self.bs(); }
impl VBytes for Vec<u8> {
    open spec fn bs(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vbytes_ref(&self) -> (r: &[u8]) { unimplemented!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn get_key_value<'a, Q: VKey<K> + ?Sized>(&'a self, k: &Q) -> (r: Option<(&'a K, &'a V)>)
        ensures self@.contains_key(k.vkey()) ==> r is Some && *(r->0).0 == k.vkey() && *(r->0).1 == self@[k.vkey()], !self@.contains_key(k.vkey()) ==> r is None { unimplemented!() }
}
// sorting keeps the elements (a consequence of it that is enough here)
pub trait VSortAny<T> {
    spec fn vsq(&self) -> Seq<&T>;
    fn vsort_any(&mut self) ensures forall|d: Set<T>| #![trigger keyseq_ref(final(self).vsq(), d)] #![trigger keyseq_ref(old(self).vsq(), d)] keyseq_ref(final(self).vsq(), d) == keyseq_ref(old(self).vsq(), d);
}
impl<'a, T> VSortAny<T> for Vec<&'a T> {
    open spec fn vsq(&self) -> Seq<&T> { self@ }
    #[verifier::external_body]
    fn vsort_any(&mut self) { unimplemented!() }
}
impl<'a, T, const N: usize> VIntoIter for &'a [T; N] {
    type Item = &'a T;
    open spec fn vitems_ok(self, s: Seq<&'a T>) -> bool { s.len() == N && forall|i: int| 0 <= i < N ==> *(#[trigger] s[i]) == self@[i] }
    #[verifier::external_body]
    fn vinto(self) -> (r: VIter<&'a T>) { unimplemented!() }
}
pub assume_specification<T>[<[T]>::to_vec](s: &[T]) -> (r: Vec<T>) where T: Clone
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> cloned(s@[i], #[trigger] r@[i]);
