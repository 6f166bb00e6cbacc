// Signals: Clone and Default as usual, Eq is structural equality.
pub trait Sig: Sized + VEq<Self> {
    spec fn dflt() -> Self;
    proof fn lemma_veq(&self, o: &Self) ensures self.veq_spec(o) == (*self == *o);
    fn clone(&self) -> (r: Self) ensures r == *self;
    fn default() -> (r: Self) ensures r == Self::dflt();
}
pub broadcast proof fn axiom_sig_eq<C: Sig>(a: C, b: C) ensures #[trigger] a.veq_spec(&b) == (a == b) { a.lemma_veq(&b); }
impl Sig for usize {
    open spec fn dflt() -> usize { 0 }
    proof fn lemma_veq(&self, o: &usize) {}
    fn clone(&self) -> (r: usize) { *self }
    fn default() -> (r: usize) { 0 }
}
impl<'a, C> VKey<&'a C> for C { open spec fn vkey(&self) -> &'a C { self } }
impl<'a, C> VKey<C> for &'a C { open spec fn vkey(&self) -> C { **self } }

// ---- finite sums (all proved) ----
pub open spec fn sumf<C>(s: Set<C>, g: spec_fn(C) -> int) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { let k = s.choose(); g(k) + sumf(s.remove(k), g) }
}
pub proof fn sum_remove<C>(s: Set<C>, k: C, g: spec_fn(C) -> int)
    requires s.contains(k)
    ensures sumf(s, g) == g(k) + sumf(s.remove(k), g)
    decreases s.len()
{
    let c = s.choose();
    if s.len() == 0 { assert(s =~= Set::empty()); }
    if c != k {
        sum_remove(s.remove(c), k, g);
        sum_remove(s.remove(k), c, g);
        assert(s.remove(c).remove(k) =~= s.remove(k).remove(c));
    }
}
pub proof fn sum_insert<C>(s: Set<C>, k: C, g: spec_fn(C) -> int)
    requires !s.contains(k)
    ensures sumf(s.insert(k), g) == g(k) + sumf(s, g)
{ sum_remove(s.insert(k), k, g); assert(s.insert(k).remove(k) =~= s); }
pub proof fn sum_lin<C>(s: Set<C>, h: spec_fn(C) -> int, f: spec_fn(C) -> int, g: spec_fn(C) -> int, u: int, v: int, p: int)
    requires p > 0, forall|k: C| #[trigger] s.contains(k) ==> h(k) % p == (u * f(k) + v * g(k)) % p
    ensures sumf(s, h) % p == (u * sumf(s, f) + v * sumf(s, g)) % p
    decreases s.len()
{
    if s.len() == 0 { assert(u * 0 + v * 0 == 0) by(nonlinear_arith); } else {
        let k = s.choose();
        assert forall|j: C| #[trigger] s.remove(k).contains(j) implies h(j) % p == (u * f(j) + v * g(j)) % p by { assert(s.contains(j)); }
        sum_lin(s.remove(k), h, f, g, u, v, p);
        let (sf, sg) = (sumf(s.remove(k), f), sumf(s.remove(k), g));
        assert(s.contains(k));
        lemma_mod_add_cong(h(k), u * f(k) + v * g(k), sumf(s.remove(k), h), u * sf + v * sg, p);
        assert(u * f(k) + v * g(k) + (u * sf + v * sg) == u * (f(k) + sf) + v * (g(k) + sg)) by(nonlinear_arith);
    }
}
pub proof fn sum_ext<C>(s: Set<C>, g: spec_fn(C) -> int, h: spec_fn(C) -> int)
    requires forall|k: C| #[trigger] s.contains(k) ==> g(k) == h(k)
    ensures sumf(s, g) == sumf(s, h)
    decreases s.len()
{
    if s.len() != 0 {
        let k = s.choose();
        assert(s.contains(k));
        assert forall|j: C| #[trigger] s.remove(k).contains(j) implies g(j) == h(j) by { assert(s.contains(j)); }
        sum_ext(s.remove(k), g, h);
    }
}
pub proof fn sum_grow<C>(s: Set<C>, t: Set<C>, g: spec_fn(C) -> int)
    requires s.subset_of(t), forall|k: C| #[trigger] t.contains(k) && !s.contains(k) ==> g(k) == 0
    ensures sumf(s, g) == sumf(t, g)
    decreases t.len()
{
    if s =~= t {} else {
        let k = choose|k: C| #[trigger] t.contains(k) && !s.contains(k);
        sum_remove(t, k, g);
        assert forall|j: C| #[trigger] t.remove(k).contains(j) && !s.contains(j) implies g(j) == 0 by { assert(t.contains(j)); }
        sum_grow(s, t.remove(k), g);
    }
}
// ---- linear combinations: coefficient maps ----
pub open spec fn ints<C>(m: Map<C, BigInt>) -> Map<C, int> { Map::new(m.dom(), |k: C| m[k]@) }
pub open spec fn co<C>(m: Map<C, int>, k: C) -> int { if m.contains_key(k) { m[k] } else { 0 } }
pub open spec fn term<C>(m: Map<C, int>, w: spec_fn(C) -> int) -> spec_fn(C) -> int { |k: C| co(m, k) * w(k) }
// value of a linear combination under w, before reduction
#[verifier::opaque]
pub open spec fn ev<C>(m: Map<C, int>, w: spec_fn(C) -> int) -> int { sumf(m.dom(), term(m, w)) }
pub proof fn lemma_ev_on<C>(m: Map<C, int>, t: Set<C>, w: spec_fn(C) -> int)
    requires m.dom().subset_of(t)
    ensures ev(m, w) == sumf(t, term(m, w))
{
    reveal(ev);
    assert forall|k: C| #[trigger] t.contains(k) && !m.dom().contains(k) implies term(m, w)(k) == 0 by { assert(0 * w(k) == 0) by(nonlinear_arith); }
    sum_grow(m.dom(), t, term(m, w));
}
// m = u*a + v*b coefficientwise (modulo p)
pub open spec fn lin2<C>(m: Map<C, int>, a: Map<C, int>, u: int, b: Map<C, int>, v: int, p: int) -> bool {
    forall|k: C| #![trigger co(m, k)] co(m, k) % p == (u * co(a, k) + v * co(b, k)) % p
}
pub proof fn lemma_lin2_w<C>(m: Map<C, int>, a: Map<C, int>, u: int, b: Map<C, int>, v: int, p: int, w: spec_fn(C) -> int)
    requires p > 0, lin2(m, a, u, b, v, p)
    ensures ev(m, w) % p == (u * ev(a, w) + v * ev(b, w)) % p
{
    let t = m.dom().union(a.dom()).union(b.dom());
    lemma_ev_on(m, t, w); lemma_ev_on(a, t, w); lemma_ev_on(b, t, w);
    assert forall|k: C| #[trigger] t.contains(k) implies term(m, w)(k) % p == (u * term(a, w)(k) + v * term(b, w)(k)) % p by {
        assert(co(m, k) % p == (u * co(a, k) + v * co(b, k)) % p);
        lemma_mod_mul_cong(co(m, k), u * co(a, k) + v * co(b, k), w(k), p);
        assert((u * co(a, k) + v * co(b, k)) * w(k) == u * (co(a, k) * w(k)) + v * (co(b, k) * w(k))) by(nonlinear_arith);
    }
    sum_lin(t, term(m, w), term(a, w), term(b, w), u, v, p);
}
pub proof fn lemma_lin2<C>(m: Map<C, int>, a: Map<C, int>, u: int, b: Map<C, int>, v: int, p: int)
    requires p > 0, lin2(m, a, u, b, v, p)
    ensures forall|w: spec_fn(C) -> int| #[trigger] ev(m, w) % p == (u * ev(a, w) + v * ev(b, w)) % p
{ assert forall|w: spec_fn(C) -> int| #[trigger] ev(m, w) % p == (u * ev(a, w) + v * ev(b, w)) % p by { lemma_lin2_w(m, a, u, b, v, p, w); } }
// same coefficients, same value (exactly)
pub proof fn lemma_ev_same<C>(m: Map<C, int>, a: Map<C, int>)
    requires forall|k: C| #![trigger co(m, k)] co(m, k) == co(a, k)
    ensures forall|w: spec_fn(C) -> int| #[trigger] ev(m, w) == ev(a, w)
{
    assert forall|w: spec_fn(C) -> int| #[trigger] ev(m, w) == ev(a, w) by {
        let t = m.dom().union(a.dom());
        lemma_ev_on(m, t, w); lemma_ev_on(a, t, w);
        assert forall|k: C| #[trigger] t.contains(k) implies term(m, w)(k) == term(a, w)(k) by { assert(co(m, k) == co(a, k)); }
        sum_ext(t, term(m, w), term(a, w));
    }
}
pub proof fn lemma_ev_empty<C>(w: spec_fn(C) -> int) ensures ev(Map::<C, int>::empty(), w) == 0 { reveal(ev); }
pub open spec fn one_term<C>(k: C, v: int) -> Map<C, int> { Map::<C, int>::empty().insert(k, v) }
pub proof fn lemma_ev_one<C>(k: C, v: int, w: spec_fn(C) -> int)
    ensures ev(one_term(k, v), w) == v * w(k)
{
    reveal(ev);
    let m = one_term(k, v);
    assert(m.dom() =~= Set::<C>::empty().insert(k));
    sum_insert(Set::<C>::empty(), k, term(m, w));
    assert(Set::<C>::empty().len() == 0);
}
pub proof fn lemma_ev_remove<C>(m: Map<C, int>, k: C, w: spec_fn(C) -> int)
    ensures ev(m, w) == co(m, k) * w(k) + ev(m.remove(k), w)
{
    let t = m.dom().insert(k);
    lemma_ev_on(m, t, w); lemma_ev_on(m.remove(k), t.remove(k), w);
    sum_remove(t, k, term(m, w));
    assert forall|j: C| #[trigger] t.remove(k).contains(j) implies term(m, w)(j) == term(m.remove(k), w)(j) by {}
    sum_ext(t.remove(k), term(m, w), term(m.remove(k), w));
}
// the assignments considered give the constant wire the value one
pub open spec fn asg<C: Sig>(w: spec_fn(C) -> int) -> bool { w(C::dflt()) == 1 }
pub open spec fn canon_lin<C>(m: Map<C, int>, p: int) -> bool { forall|k: C| #[trigger] m.contains_key(k) ==> 0 <= m[k] < p }
// renaming the signals of a combination by f, injective on the signals that occur
pub open spec fn renamed<C, K>(n: Map<K, int>, m: Map<C, int>, f: spec_fn(C) -> K) -> bool {
    &&& forall|k: C| #[trigger] m.contains_key(k) ==> n.contains_key(f(k)) && n[f(k)] == m[k]
    &&& forall|j: K| #[trigger] n.contains_key(j) ==> exists|k: C| #[trigger] m.contains_key(k) && f(k) == j
}
pub open spec fn inj_on<C, K>(d: Set<C>, f: spec_fn(C) -> K) -> bool { forall|x: C, y: C| #[trigger] d.contains(x) && #[trigger] d.contains(y) && f(x) == f(y) ==> x == y }
pub proof fn lemma_ev_renamed<C, K>(n: Map<K, int>, m: Map<C, int>, f: spec_fn(C) -> K, w: spec_fn(K) -> int)
    requires renamed(n, m, f), inj_on(m.dom(), f)
    ensures ev(n, w) == ev(m, |k: C| w(f(k)))
    decreases m.dom().len()
{
    let wf = |k: C| w(f(k));
    if m.dom().len() == 0 {
        assert(m =~= Map::empty());
        assert(n =~= Map::empty()) by { assert forall|j: K| !n.contains_key(j) by { if n.contains_key(j) { let k = choose|k: C| #[trigger] m.contains_key(k) && f(k) == j; } } }
        lemma_ev_empty(w); lemma_ev_empty(wf);
    } else {
        let k = m.dom().choose();
        let (m1, n1) = (m.remove(k), n.remove(f(k)));
        assert(m.contains_key(k));
        assert forall|x: C| #[trigger] m1.contains_key(x) implies n1.contains_key(f(x)) && n1[f(x)] == m1[x] by { assert(m.contains_key(x)); if f(x) == f(k) { assert(m.dom().contains(x) && m.dom().contains(k)); } }
        assert forall|j: K| #[trigger] n1.contains_key(j) implies exists|x: C| #[trigger] m1.contains_key(x) && f(x) == j by {
            assert(n.contains_key(j)); let x = choose|x: C| #[trigger] m.contains_key(x) && f(x) == j; assert(m1.contains_key(x));
        }
        assert forall|x: C, y: C| #[trigger] m1.dom().contains(x) && #[trigger] m1.dom().contains(y) && f(x) == f(y) implies x == y by { assert(m.dom().contains(x) && m.dom().contains(y)); }
        lemma_ev_renamed(n1, m1, f, w);
        lemma_ev_remove(m, k, wf); lemma_ev_remove(n, f(k), w);
    }
}
// combinations that do not mention k do not depend on it
pub proof fn lemma_ev_frame<C>(m: Map<C, int>, w: spec_fn(C) -> int, v: spec_fn(C) -> int)
    requires forall|k: C| #[trigger] m.contains_key(k) ==> w(k) == v(k)
    ensures ev(m, w) == ev(m, v)
{
    reveal(ev);
    assert forall|k: C| #[trigger] m.dom().contains(k) implies term(m, w)(k) == term(m, v)(k) by { assert(m.contains_key(k)); }
    sum_ext(m.dom(), term(m, w), term(m, v));
}
pub open spec fn nozero<C>(m: Map<C, int>) -> bool { forall|k: C| #[trigger] m.contains_key(k) ==> m[k] != 0 }
pub proof fn lemma_single<C, V>(m: Map<C, V>, k: C)
    requires m.dom().len() == 1, m.contains_key(k)
    ensures m =~= Map::<C, V>::empty().insert(k, m[k])
{
    assert(m.remove(k).dom().len() == 0) by { assert(m.remove(k).dom() =~= m.dom().remove(k)); }
    assert(m.remove(k).dom() =~= Set::empty());
    assert(m =~= m.remove(k).insert(k, m[k]));
}
