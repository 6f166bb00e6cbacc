// Stub collections.  Keys are compared by structural equality (their Eq/Hash/Ord are
// derived or equivalent); iteration order is unspecified, each element once.
// lookups by a borrowed form of the key
pub trait VKey<K> { spec fn vkey(&self) -> K; }
impl<K> VKey<K> for K { open spec fn vkey(&self) -> K { *self } }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { x: std::marker::PhantomData<(K, V)> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
pub broadcast proof fn axiom_hashmap_ext<K, V>(a: HashMap<K, V>, b: HashMap<K, V>)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b { admit(); }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0), r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a, Q: VKey<K> + ?Sized>(&'a self, k: &Q) -> (r: Option<&'a V>)
        ensures self@.contains_key(k.vkey()) ==> r is Some && *r->0 == self@[k.vkey()], !self@.contains_key(k.vkey()) ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a, Q: VKey<K> + ?Sized>(&'a mut self, k: &Q) -> (r: Option<&'a mut V>)
        ensures old(self)@.contains_key(k.vkey()) ==> r is Some && *r->0 == old(self)@[k.vkey()] && final(self)@ == old(self)@.insert(k.vkey(), *final(r->0)),
            !old(self)@.contains_key(k.vkey()) ==> r is None && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VKey<K> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.vkey()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            old(self)@.contains_key(k) ==> r == Some(old(self)@[k]), !old(self)@.contains_key(k) ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VKey<K> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.vkey()),
            old(self)@.contains_key(k.vkey()) ==> r == Some(old(self)@[k.vkey()]), !old(self)@.contains_key(k.vkey()) ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, o: HashMap<K, V>) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
    // entry(k).or_insert(v) / entry(k).or_insert_with(|| v)
    #[verifier::external_body]
    pub fn ventry_or_insert<'a>(&'a mut self, k: K, v: V) -> (r: &'a mut V)
        ensures *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { v }),
            final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (r: VIter<&'a K>)
        ensures r.pos() == 0, keyseq_ref(r.items(), self@.dom()) { unimplemented!() }
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> (r: VIter<&'a V>)
        ensures r.pos() == 0, r.items().len() == self@.dom().len(), valseq_ref(r.items(), self@), forall|i: int| 0 <= i < r.items().len() ==> exists|k: K| #[trigger] self@.contains_key(k) && self@[k] == *(#[trigger] r.items()[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: VIter<(&'a K, &'a V)>)
        ensures r.pos() == 0, mapseq_ref(r.items(), self@) { unimplemented!() }
}
// a sequence that lists a finite set once
pub open spec fn keyseq<K>(s: Seq<K>, d: Set<K>) -> bool { s.no_duplicates() && s.to_set() == d }
// the values of a map, each key once
#[verifier::opaque]
pub open spec fn valseq_ref<K, V>(s: Seq<&V>, m: Map<K, V>) -> bool {
    exists|ks: Seq<K>| #[trigger] keyseq(ks, m.dom()) && ks.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] ks[i]) && m[ks[i]] == *s[i]
}
pub open spec fn keyseq_ref<K>(s: Seq<&K>, d: Set<K>) -> bool { keyseq(derefs(s), d) }
pub open spec fn mapseq<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    keyseq(Seq::new(s.len(), |i: int| s[i].0), m.dom()) && forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
}
pub open spec fn mapseq_ref<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    keyseq(Seq::new(s.len(), |i: int| *s[i].0), m.dom()) && forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn vkeys(&self) -> (r: VIter<K>)
        ensures r.pos() == 0, keyseq(r.items(), self@.dom()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<K, V> VIntoIter for HashMap<K, V> {
    type Item = (K, V);
    open spec fn vitems_ok(self, s: Seq<(K, V)>) -> bool { mapseq(s, self@) }
    #[verifier::external_body]
    fn vinto(self) -> (r: VIter<(K, V)>) { unimplemented!() }
}
impl<'a, K, V> VIntoIter for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    open spec fn vitems_ok(self, s: Seq<(&'a K, &'a V)>) -> bool { mapseq_ref(s, self@) }
    #[verifier::external_body]
    fn vinto(self) -> (r: VIter<(&'a K, &'a V)>) { unimplemented!() }
}
impl<T> VIntoIter for VIter<T> {
    type Item = T;
    open spec fn vitems_ok(self, s: Seq<T>) -> bool { s == self.items().skip(self.pos()) && (self.pos() == 0 ==> s == self.items()) }
    #[verifier::external_body]
    fn vinto(self) -> (r: VIter<T>) { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { x: std::marker::PhantomData<K> }
impl<K> View for HashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
pub broadcast proof fn axiom_hashset_ext<K>(a: HashSet<K>, b: HashSet<K>)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b { admit(); }
impl<K> HashSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), r == (self@ == Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: VKey<K> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains(k.vkey()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VKey<K> + ?Sized>(&mut self, k: &Q) -> (r: bool) ensures final(self)@ == old(self)@.remove(k.vkey()), r == old(self)@.contains(k.vkey()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, o: HashSet<K>) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
}
impl<K> HashSet<K> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<K> VIntoIter for HashSet<K> {
    type Item = K;
    open spec fn vitems_ok(self, s: Seq<K>) -> bool { keyseq(s, self@) }
    #[verifier::external_body]
    fn vinto(self) -> (r: VIter<K>) { unimplemented!() }
}
impl<'a, K> VIntoIter for &'a HashSet<K> {
    type Item = &'a K;
    open spec fn vitems_ok(self, s: Seq<&'a K>) -> bool { keyseq_ref(s, self@) }
    #[verifier::external_body]
    fn vinto(self) -> (r: VIter<&'a K>) { unimplemented!() }
}

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct LinkedList<T> { x: std::marker::PhantomData<T> }
impl<T> View for LinkedList<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> LinkedList<T> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first() { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, o: &mut LinkedList<T>)
        ensures final(self)@ == old(self)@ + old(o)@, final(o)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
}
impl<T> VIntoIter for LinkedList<T> {
    type Item = T;
    open spec fn vitems_ok(self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body]
    fn vinto(self) -> (r: VIter<T>) { unimplemented!() }
}
impl<'a, T> VIntoIter for &'a LinkedList<T> {
    type Item = &'a T;
    open spec fn vitems_ok(self, s: Seq<&'a T>) -> bool {
        s.len() == self@.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == self@[i]
    }
    #[verifier::external_body]
    fn vinto(self) -> (r: VIter<&'a T>) { unimplemented!() }
}
// --- walking a map ---
pub open spec fn seen<K, V>(s: Seq<(K, V)>, n: int, k: K) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k }
pub proof fn lemma_seen<K, V>(s: Seq<(K, V)>, m: Map<K, V>, n: int)
    requires mapseq(s, m), 0 <= n <= s.len()
    ensures
        forall|k: K| #[trigger] seen(s, n, k) ==> m.contains_key(k),
        n < s.len() ==> m.contains_key(s[n].0) && m[s[n].0] == s[n].1 && !seen(s, n, s[n].0) && forall|k: K| #[trigger] seen(s, n + 1, k) == (seen(s, n, k) || k == s[n].0),
        n == s.len() ==> forall|k: K| #[trigger] seen(s, n, k) == m.contains_key(k),
{
    let ks = Seq::new(s.len(), |i: int| s[i].0);
    if n < s.len() {
        assert(ks[n] == s[n].0);
        if seen(s, n, s[n].0) { let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).0 == s[n].0; assert(ks[i] == ks[n]); }
        assert forall|k: K| #[trigger] seen(s, n + 1, k) == (seen(s, n, k) || k == s[n].0) by {
            if seen(s, n + 1, k) { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] s[i]).0 == k; if i < n { assert(seen(s, n, k)); } }
            if seen(s, n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k; assert(0 <= i < n + 1 && s[i].0 == k); }
            if k == s[n].0 { assert(0 <= n < n + 1 && s[n].0 == k); }
        }
    } else {
        assert forall|k: K| #[trigger] seen(s, n, k) == m.contains_key(k) by {
            if m.contains_key(k) { assert(ks.to_set().contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(s[i].0 == k); }
        }
    }
}
pub assume_specification<T>[<[T]>::reverse](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub proof fn lemma_seen_ref<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>, n: int)
    requires mapseq_ref(s, m), 0 <= n <= s.len()
    ensures
        forall|k: K| #[trigger] seen_ref(s, n, k) ==> m.contains_key(k),
        n < s.len() ==> m.contains_key(*s[n].0) && m[*s[n].0] == *s[n].1 && !seen_ref(s, n, *s[n].0) && forall|k: K| #[trigger] seen_ref(s, n + 1, k) == (seen_ref(s, n, k) || k == *s[n].0),
        n == s.len() ==> forall|k: K| #[trigger] seen_ref(s, n, k) == m.contains_key(k),
{
    let t = Seq::new(s.len(), |i: int| (*s[i].0, *s[i].1));
    assert(Seq::new(t.len(), |i: int| t[i].0) =~= Seq::new(s.len(), |i: int| *s[i].0));
    assert(mapseq(t, m)) by { assert forall|i: int| 0 <= i < t.len() implies m.contains_key((#[trigger] t[i]).0) && m[t[i].0] == t[i].1 by { assert(m.contains_key(*s[i].0)); } }
    lemma_seen(t, m, n);
    assert forall|k: K, j: int| 0 <= j <= s.len() implies #[trigger] seen_ref(s, j, k) == seen(t, j, k) by {
        if seen_ref(s, j, k) { let i = choose|i: int| 0 <= i < j && *(#[trigger] s[i]).0 == k; assert(t[i].0 == k); }
        if seen(t, j, k) { let i = choose|i: int| 0 <= i < j && (#[trigger] t[i]).0 == k; assert(*s[i].0 == k); }
    }
}
pub open spec fn seen_ref<K, V>(s: Seq<(&K, &V)>, n: int, k: K) -> bool { exists|i: int| 0 <= i < n && *(#[trigger] s[i]).0 == k }
pub open spec fn kseen<K>(s: Seq<&K>, n: int, k: K) -> bool { exists|i: int| 0 <= i < n && *(#[trigger] s[i]) == k }
pub proof fn lemma_kseen<K>(s: Seq<&K>, d: Set<K>, n: int)
    requires keyseq_ref(s, d), 0 <= n <= s.len()
    ensures
        forall|k: K| #[trigger] kseen(s, n, k) ==> d.contains(k),
        n < s.len() ==> d.contains(*s[n]) && !kseen(s, n, *s[n]) && forall|k: K| #[trigger] kseen(s, n + 1, k) == (kseen(s, n, k) || k == *s[n]),
        n == s.len() ==> forall|k: K| #[trigger] kseen(s, n, k) == d.contains(k),
{
    let t = derefs(s);
    assert forall|k: K| #[trigger] kseen(s, n, k) implies d.contains(k) by { let i = choose|i: int| 0 <= i < n && *(#[trigger] s[i]) == k; assert(t[i] == k); assert(t.to_set().contains(k)); }
    if n < s.len() {
        assert(t[n] == *s[n]); assert(t.to_set().contains(t[n]));
        if kseen(s, n, *s[n]) { let i = choose|i: int| 0 <= i < n && *(#[trigger] s[i]) == *s[n]; assert(t[i] == t[n]); }
        assert forall|k: K| #[trigger] kseen(s, n + 1, k) == (kseen(s, n, k) || k == *s[n]) by {
            if kseen(s, n + 1, k) { let i = choose|i: int| 0 <= i < n + 1 && *(#[trigger] s[i]) == k; if i < n { assert(kseen(s, n, k)); } }
            if kseen(s, n, k) { let i = choose|i: int| 0 <= i < n && *(#[trigger] s[i]) == k; assert(0 <= i < n + 1 && *s[i] == k); }
            if k == *s[n] { assert(0 <= n < n + 1 && *s[n] == k); }
        }
    } else {
        assert forall|k: K| #[trigger] kseen(s, n, k) == d.contains(k) by {
            if d.contains(k) { assert(t.to_set().contains(k)); let i = choose|i: int| 0 <= i < t.len() && t[i] == k; assert(*s[i] == k); }
        }
    }
}

// std::mem::take
pub trait VTake: Sized { spec fn vempty(&self) -> bool; }
impl<K, V> VTake for HashMap<K, V> { open spec fn vempty(&self) -> bool { self@ == Map::<K, V>::empty() } }
impl<T> VTake for Vec<T> { open spec fn vempty(&self) -> bool { self@ == Seq::<T>::empty() } }
impl<T> VTake for LinkedList<T> { open spec fn vempty(&self) -> bool { self@ == Seq::<T>::empty() } }
#[verifier::external_body]
pub fn vmem_take<T: VTake>(m: &mut T) -> (r: T) ensures r == *old(m), final(m).vempty() { unimplemented!() }
pub open spec fn vseen<K>(s: Seq<K>, n: int, k: K) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]) == k }
pub proof fn lemma_vseen<K>(s: Seq<K>, d: Set<K>, n: int)
    requires keyseq(s, d), 0 <= n <= s.len()
    ensures
        forall|k: K| #[trigger] vseen(s, n, k) ==> d.contains(k),
        n < s.len() ==> d.contains(s[n]) && !vseen(s, n, s[n]) && forall|k: K| #[trigger] vseen(s, n + 1, k) == (vseen(s, n, k) || k == s[n]),
        n == s.len() ==> forall|k: K| #[trigger] vseen(s, n, k) == d.contains(k),
{
    assert forall|k: K| #[trigger] vseen(s, n, k) implies d.contains(k) by { let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]) == k; assert(s.to_set().contains(k)); }
    if n < s.len() {
        assert(s.to_set().contains(s[n]));
        assert forall|k: K| #[trigger] vseen(s, n + 1, k) == (vseen(s, n, k) || k == s[n]) by {
            if vseen(s, n + 1, k) { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] s[i]) == k; if i < n { assert(vseen(s, n, k)); } }
            if vseen(s, n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]) == k; assert(0 <= i < n + 1 && s[i] == k); }
            if k == s[n] { assert(0 <= n < n + 1 && s[n] == k); }
        }
    } else {
        assert forall|k: K| #[trigger] vseen(s, n, k) == d.contains(k) by {
            if d.contains(k) { assert(s.to_set().contains(k)); let i = choose|i: int| 0 <= i < s.len() && s[i] == k; assert(s[i] == k); }
        }
    }
}

// ordered map: iteration follows the keys in their order, which is a function of the key set
pub uninterp spec fn bt_keys<K>(d: Set<K>) -> Seq<K>;
pub axiom fn axiom_bt_keys<K>(d: Set<K>) ensures keyseq(bt_keys(d), d);
pub axiom fn axiom_bt_usize(d: Set<usize>) ensures forall|i: int, j: int| 0 <= i < j < bt_keys(d).len() ==> bt_keys(d)[i] < bt_keys(d)[j];
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { x: std::marker::PhantomData<(K, V)> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
pub open spec fn btseq<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    mapseq(s, m) && s.len() == bt_keys(m.dom()).len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == bt_keys(m.dom())[i]
}
pub open spec fn btseq_ref<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    mapseq_ref(s, m) && s.len() == bt_keys(m.dom()).len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]).0 == bt_keys(m.dom())[i]
}
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a, Q: VKey<K> + ?Sized>(&'a self, k: &Q) -> (r: Option<&'a V>)
        ensures self@.contains_key(k.vkey()) ==> r is Some && *r->0 == self@[k.vkey()], !self@.contains_key(k.vkey()) ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VKey<K> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.vkey()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            old(self)@.contains_key(k) ==> r == Some(old(self)@[k]), !old(self)@.contains_key(k) ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VKey<K> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.vkey()),
            old(self)@.contains_key(k.vkey()) ==> r == Some(old(self)@[k.vkey()]), !old(self)@.contains_key(k.vkey()) ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (r: VIter<&'a K>)
        ensures r.pos() == 0, keyseq_ref(r.items(), self@.dom()), derefs(r.items()) == bt_keys(self@.dom()) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: VIter<(&'a K, &'a V)>)
        ensures r.pos() == 0, btseq_ref(r.items(), self@) { unimplemented!() }
}
impl<K, V> VIntoIter for BTreeMap<K, V> {
    type Item = (K, V);
    open spec fn vitems_ok(self, s: Seq<(K, V)>) -> bool { btseq(s, self@) }
    #[verifier::external_body]
    fn vinto(self) -> (r: VIter<(K, V)>) { unimplemented!() }
}
impl<'a, K, V> VIntoIter for &'a BTreeMap<K, V> {
    type Item = (&'a K, &'a V);
    open spec fn vitems_ok(self, s: Seq<(&'a K, &'a V)>) -> bool { btseq_ref(s, self@) }
    #[verifier::external_body]
    fn vinto(self) -> (r: VIter<(&'a K, &'a V)>) { unimplemented!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn shrink_to_fit(&mut self) ensures final(self)@ == old(self)@ { unimplemented!() }
}
impl<T> VCollect<T> for LinkedList<T> { open spec fn vcollected(s: Seq<T>, r: Self) -> bool { r@ == s } }

// ordered set: iteration follows the elements in their order
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct BTreeSet<K> { x: std::marker::PhantomData<K> }
impl<K> View for BTreeSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
pub open spec fn btsseq<K>(s: Seq<K>, d: Set<K>) -> bool { keyseq(s, d) && s == bt_keys(d) }
impl<K> BTreeSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: VKey<K> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains(k.vkey()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VKey<K> + ?Sized>(&mut self, k: &Q) -> (r: bool) ensures final(self)@ == old(self)@.remove(k.vkey()), r == old(self)@.contains(k.vkey()) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: VIter<&'a K>) ensures r.pos() == 0, btsseq(derefs(r.items()), self@) { unimplemented!() }
}
impl<K> VIntoIter for BTreeSet<K> {
    type Item = K;
    open spec fn vitems_ok(self, s: Seq<K>) -> bool { btsseq(s, self@) }
    #[verifier::external_body]
    fn vinto(self) -> (r: VIter<K>) { unimplemented!() }
}
impl<'a, K> VIntoIter for &'a BTreeSet<K> {
    type Item = &'a K;
    open spec fn vitems_ok(self, s: Seq<&'a K>) -> bool { btsseq(derefs(s), self@) }
    #[verifier::external_body]
    fn vinto(self) -> (r: VIter<&'a K>) { unimplemented!() }
}
impl<K, V> VTake for BTreeMap<K, V> { open spec fn vempty(&self) -> bool { self@ == Map::<K, V>::empty() } }
impl<T> VCollect<T> for HashSet<T> { open spec fn vcollected(s: Seq<T>, r: Self) -> bool { r@ == s.to_set() } }
impl<K> VTake for HashSet<K> { open spec fn vempty(&self) -> bool { self@ == Set::<K>::empty() } }
