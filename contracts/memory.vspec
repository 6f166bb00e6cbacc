%use ops.rs
%use iter.rs
%use sym.rs
%mod memory_slice
%source program_structure/src/utils/memory_slice.rs
%bound C = Sym
%ops off
%verbatim
#[verifier::external_body]
pub struct Meta { x: u8 }
#[verifier::external_body]
pub fn vslice_to_vec(s: &[usize]) -> (r: Vec<usize>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vec_clone<C: Sym>(s: &Vec<C>) -> (r: Vec<C>) ensures r@ == s@ { unimplemented!() }

pub open spec fn prod(s: Seq<usize>) -> int decreases s.len() {
    if s.len() == 0 { 1 } else { s[0] * prod(s.drop_first()) }
}
// product with empty dimensions counted as 1: bounds every partial product
pub open spec fn prod1(s: Seq<usize>) -> int decreases s.len() {
    if s.len() == 0 { 1 } else { (if s[0] == 0 { 1int } else { s[0] as int }) * prod1(s.drop_first()) }
}
// row-major position of the first cell selected by `path`
pub open spec fn rm(route: Seq<usize>, path: Seq<usize>) -> int decreases path.len() {
    if path.len() == 0 || route.len() == 0 { 0 }
    else { path[0] * prod(route.drop_first()) + rm(route.drop_first(), path.drop_first()) }
}
pub open spec fn inb(route: Seq<usize>, path: Seq<usize>) -> bool {
    path.len() <= route.len() && forall|i: int| 0 <= i < path.len() ==> #[trigger] path[i] < route[i]
}
pub open spec fn full(route: Seq<usize>, path: Seq<usize>) -> bool { path.len() == route.len() && inb(route, path) }
pub open spec fn fits(route: Seq<usize>) -> bool { prod1(route) <= isize::MAX }
// the path that selects cell `c`
pub open spec fn unrank(route: Seq<usize>, c: int) -> Seq<usize> decreases route.len() {
    if route.len() == 0 { seq![] }
    else { seq![(c / prod(route.drop_first())) as usize] + unrank(route.drop_first(), c % prod(route.drop_first())) }
}
impl<C> MemorySlice<C> {
    pub open spec fn wf(&self) -> bool { self.values@.len() == prod(self.route@) && fits(self.route@) }
}
// q runs through `access` and then stays inside a block of shape `nr`
pub open spec fn hits(access: Seq<usize>, nr: Seq<usize>, q: Seq<usize>) -> bool {
    access.len() <= q.len() && q.take(access.len() as int) == access && inb(nr, q.skip(access.len() as int))
}
pub open spec fn same_shape(route: Seq<usize>, access: Seq<usize>, nr: Seq<usize>) -> bool {
    nr == route.skip(access.len() as int)
}

pub proof fn lemma_prod_nonneg(s: Seq<usize>)
    ensures prod(s) >= 0, prod1(s) >= 1, prod(s) <= prod1(s)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_prod_nonneg(s.drop_first());
        let a = s[0] as int; let b = prod(s.drop_first()); let c = prod1(s.drop_first());
        assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0;
        let a1 = if a == 0 { 1int } else { a };
        assert(a1 * c >= 1) by (nonlinear_arith) requires a1 >= 1, c >= 1;
        assert(a * b <= a1 * c) by (nonlinear_arith) requires 0 <= a <= a1, 0 <= b <= c;
    }
}
pub proof fn lemma_prod_append(a: Seq<usize>, b: Seq<usize>)
    ensures prod(a + b) == prod(a) * prod(b), prod1(a + b) == prod1(a) * prod1(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b == b); }
    else {
        lemma_prod_append(a.drop_first(), b);
        assert((a + b).drop_first() == a.drop_first() + b);
        let x = a[0] as int; let x1 = if x == 0 { 1int } else { x };
        assert(x * (prod(a.drop_first()) * prod(b)) == (x * prod(a.drop_first())) * prod(b)) by (nonlinear_arith);
        assert(x1 * (prod1(a.drop_first()) * prod1(b)) == (x1 * prod1(a.drop_first())) * prod1(b)) by (nonlinear_arith);
    }
}
pub proof fn lemma_prod_one(x: usize) ensures prod(seq![x]) == x, prod1(seq![x]) == (if x == 0 { 1int } else { x as int })
{
    assert(seq![x].drop_first() == Seq::<usize>::empty());
    assert(prod(seq![x].drop_first()) == 1);
    assert(prod1(seq![x].drop_first()) == 1);
}
pub proof fn lemma_sub_fits(s: Seq<usize>, i: int, j: int)
    requires 0 <= i <= j <= s.len(), fits(s)
    ensures prod1(s.subrange(i, j)) <= prod1(s), 0 <= prod(s.subrange(i, j)) <= isize::MAX, fits(s.subrange(i, j))
{
    let a = s.take(i); let b = s.subrange(i, j); let c = s.skip(j);
    assert(s == (a + b) + c);
    lemma_prod_append(a + b, c); lemma_prod_append(a, b);
    lemma_prod_nonneg(a); lemma_prod_nonneg(b); lemma_prod_nonneg(c);
    let x = prod1(a); let y = prod1(b); let z = prod1(c);
    assert(y <= (x * y) * z) by (nonlinear_arith) requires x >= 1, y >= 1, z >= 1;
}
pub proof fn lemma_sub_fits_all(s: Seq<usize>)
    requires fits(s)
    ensures forall|i: int| 0 <= i <= s.len() ==> fits(#[trigger] s.skip(i)) && 0 <= prod(s.skip(i)) <= isize::MAX,
        forall|i: int, j: int| 0 <= i <= j <= s.len() ==> fits(#[trigger] s.subrange(i, j)) && 0 <= prod(s.subrange(i, j)) <= isize::MAX,
{
    assert forall|i: int| 0 <= i <= s.len() implies fits(#[trigger] s.skip(i)) && 0 <= prod(s.skip(i)) <= isize::MAX by {
        lemma_sub_fits(s, i, s.len() as int);
        assert(s.skip(i) == s.subrange(i, s.len() as int));
    }
    assert forall|i: int, j: int| 0 <= i <= j <= s.len() implies fits(#[trigger] s.subrange(i, j)) && 0 <= prod(s.subrange(i, j)) <= isize::MAX by {
        lemma_sub_fits(s, i, j);
    }
}
// the block selected by an in-bounds path lies inside the slice
pub proof fn lemma_rm_bound(route: Seq<usize>, path: Seq<usize>)
    requires inb(route, path)
    ensures 0 <= rm(route, path), rm(route, path) + prod(route.skip(path.len() as int)) <= prod(route),
        path.len() == route.len() ==> rm(route, path) < prod(route)
    decreases path.len()
{
    lemma_prod_nonneg(route);
    if path.len() == 0 { assert(route.skip(0) == route); if route.len() == 0 {} }
    else {
        let r1 = route.drop_first(); let p1 = path.drop_first();
        assert forall|i: int| 0 <= i < p1.len() implies #[trigger] p1[i] < r1[i] by { assert(p1[i] == path[i + 1]); }
        lemma_rm_bound(r1, p1);
        assert(route.skip(path.len() as int) == r1.skip(p1.len() as int));
        lemma_prod_nonneg(r1);
        let x = path[0] as int; let n = route[0] as int; let q = prod(r1);
        assert(x * q + q <= n * q) by (nonlinear_arith) requires x + 1 <= n, q >= 0;
        assert(x * q >= 0) by (nonlinear_arith) requires x >= 0, q >= 0;
    }
    if path.len() == route.len() {
        assert(route.skip(path.len() as int) == Seq::<usize>::empty());
    }
}
pub proof fn lemma_rm_append(route: Seq<usize>, a: Seq<usize>, b: Seq<usize>)
    requires a.len() + b.len() <= route.len()
    ensures rm(route, a + b) == rm(route, a) + rm(route.skip(a.len() as int), b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b == b); assert(route.skip(0) == route); }
    else {
        lemma_rm_append(route.drop_first(), a.drop_first(), b);
        assert((a + b).drop_first() == a.drop_first() + b);
        assert(route.drop_first().skip(a.drop_first().len() as int) == route.skip(a.len() as int));
        assert((a + b)[0] == a[0]);
    }
}
pub proof fn lemma_rm_one(route: Seq<usize>, x: usize)
    requires route.len() > 0
    ensures rm(route, seq![x]) == x * prod(route.drop_first())
{
    assert(seq![x].drop_first().len() == 0);
    assert(rm(route.drop_first(), seq![x].drop_first()) == 0);
}
pub proof fn lemma_unrank(route: Seq<usize>, c: int)
    requires 0 <= c < prod(route), fits(route)
    ensures full(route, unrank(route, c)), rm(route, unrank(route, c)) == c
    decreases route.len()
{
    if route.len() > 0 {
        let r1 = route.drop_first(); let q = prod(r1); let n = route[0] as int;
        lemma_prod_nonneg(r1);
        assert(q > 0) by (nonlinear_arith) requires 0 <= c < n * q, q >= 0;
        lemma_sub_fits_all(route);
        assert(r1 == route.skip(1));
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c, q);
        let h = c / q; let t = c % q;
        assert(0 <= h < n) by (nonlinear_arith) requires 0 <= c < n * q, q > 0, c == q * h + t, 0 <= t < q;
        lemma_unrank(r1, t);
        let u = unrank(route, c);
        assert(u.drop_first() == unrank(r1, t));
        assert(u[0] == h as usize);
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] < route[i] by {
            if i > 0 { assert(u[i] == unrank(r1, t)[i - 1]); assert(route[i] == r1[i - 1]); }
        }
        assert(h * q == q * h) by (nonlinear_arith);
    } else {
        assert(unrank(route, c) == Seq::<usize>::empty());
    }
}
pub proof fn lemma_rm_inj(route: Seq<usize>, p: Seq<usize>, q: Seq<usize>)
    requires full(route, p), full(route, q), rm(route, p) == rm(route, q)
    ensures p == q
    decreases route.len()
{
    if route.len() > 0 {
        let r1 = route.drop_first(); let p1 = p.drop_first(); let q1 = q.drop_first();
        assert forall|i: int| 0 <= i < p1.len() implies #[trigger] p1[i] < r1[i] by { assert(p1[i] == p[i + 1]); }
        assert forall|i: int| 0 <= i < q1.len() implies #[trigger] q1[i] < r1[i] by { assert(q1[i] == q[i + 1]); }
        lemma_rm_bound(r1, p1); lemma_rm_bound(r1, q1);
        let m = prod(r1); let a = p[0] as int; let b = q[0] as int; let u = rm(r1, p1); let v = rm(r1, q1);
        assert(a == b) by (nonlinear_arith) requires a * m + u == b * m + v, 0 <= u < m, 0 <= v < m;
        lemma_rm_inj(r1, p1, q1);
        assert(p == seq![p[0]] + p1); assert(q == seq![q[0]] + q1);
    } else { assert(p == q); }
}
pub proof fn lemma_inb_split(route: Seq<usize>, a: Seq<usize>, q: Seq<usize>)
    requires full(route, q), a.len() <= q.len(), q.take(a.len() as int) == a
    ensures inb(route, a), full(route.skip(a.len() as int), q.skip(a.len() as int)), q == a + q.skip(a.len() as int),
        rm(route, q) == rm(route, a) + rm(route.skip(a.len() as int), q.skip(a.len() as int))
{
    let b = q.skip(a.len() as int);
    assert(q == a + b);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] < route[i] by { assert(a[i] == q[i]); }
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] < route.skip(a.len() as int)[i] by { assert(b[i] == q[i + a.len()]); }
    lemma_rm_append(route, a, b);
}
pub proof fn lemma_inb_join(route: Seq<usize>, a: Seq<usize>, b: Seq<usize>)
    requires inb(route, a), full(route.skip(a.len() as int), b)
    ensures full(route, a + b), rm(route, a + b) == rm(route, a) + rm(route.skip(a.len() as int), b),
        (a + b).take(a.len() as int) == a, (a + b).skip(a.len() as int) == b
{
    let q = a + b;
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] < route[i] by {
        if i < a.len() { assert(q[i] == a[i]); } else { assert(q[i] == b[i - a.len()]); assert(route.skip(a.len() as int)[i - a.len()] == route[i]); }
    }
    lemma_rm_append(route, a, b);
    assert(q.take(a.len() as int) == a); assert(q.skip(a.len() as int) == b);
}
// writing the cells [start, start+n) with new = exactly the cells whose path runs through access
pub open spec fn written<C>(route: Seq<usize>, access: Seq<usize>, nr: Seq<usize>, old: Seq<C>, nv: Seq<C>, res: Seq<C>) -> bool {
    res.len() == old.len() && forall|q: Seq<usize>| full(route, q) ==> #[trigger] res[rm(route, q)] ==
        (if hits(access, nr, q) { nv[rm(nr, q.skip(access.len() as int))] } else { old[rm(route, q)] })
}
pub open spec fn block_written<C>(start: int, old: Seq<C>, nv: Seq<C>, res: Seq<C>) -> bool {
    res.len() == old.len() && forall|i: int| 0 <= i < old.len() ==> #[trigger] res[i] ==
        (if start <= i < start + nv.len() { nv[i - start] } else { old[i] })
}
pub proof fn lemma_block_written<C>(route: Seq<usize>, access: Seq<usize>, old: Seq<C>, nv: Seq<C>, res: Seq<C>)
    requires inb(route, access), old.len() == prod(route), fits(route), nv.len() == prod(route.skip(access.len() as int)),
        block_written(rm(route, access), old, nv, res)
    ensures written(route, access, route.skip(access.len() as int), old, nv, res)
{
    let nr = route.skip(access.len() as int); let n = access.len() as int;
    lemma_sub_fits_all(route);
    assert forall|q: Seq<usize>| full(route, q) implies #[trigger] res[rm(route, q)] ==
        (if hits(access, nr, q) { nv[rm(nr, q.skip(n))] } else { old[rm(route, q)] }) by {
        lemma_rm_bound(route, q);
        let c = rm(route, q); let s = rm(route, access);
        if hits(access, nr, q) {
            lemma_inb_split(route, access, q);
            lemma_rm_bound(nr, q.skip(n));
        } else if s <= c < s + nv.len() {
            // cells of the block belong to paths through access
            lemma_unrank(nr, c - s);
            let b = unrank(nr, c - s);
            lemma_inb_join(route, access, b);
            lemma_rm_inj(route, q, access + b);
            assert(false);
        }
    }
}
// one step of the row-wise copy of a block of another shape
pub open spec fn written_upto<C>(route: Seq<usize>, access: Seq<usize>, nr: Seq<usize>, k: int, old: Seq<C>, nv: Seq<C>, res: Seq<C>) -> bool {
    res.len() == old.len() && forall|q: Seq<usize>| full(route, q) ==> #[trigger] res[rm(route, q)] ==
        (if hits(access, nr, q) && q[access.len() as int] < k { nv[rm(nr, q.skip(access.len() as int))] } else { old[rm(route, q)] })
}
pub proof fn lemma_written_step<C>(route: Seq<usize>, access: Seq<usize>, nr: Seq<usize>, k: int, old: Seq<C>, nv: Seq<C>, mid: Seq<C>, row: Seq<C>, res: Seq<C>)
    requires nr.len() > 0, access.len() + nr.len() == route.len(), 0 <= k < nr[0], fits(nr), nv.len() == prod(nr),
        written_upto(route, access, nr, k, old, nv, mid),
        row == nv.subrange(rm(nr, seq![k as usize]), rm(nr, seq![k as usize]) + prod(nr.skip(1))),
        (res == mid && !inb(route, access.push(k as usize))) || written(route, access.push(k as usize), nr.skip(1), mid, row, res),
        old.len() == prod(route), fits(route),
    ensures written_upto(route, access, nr, k + 1, old, nv, res)
{
    let n = access.len() as int; let ak = access.push(k as usize);
    lemma_sub_fits_all(nr);
    assert(inb(nr, seq![k as usize]));
    lemma_rm_bound(nr, seq![k as usize]);
    assert forall|q: Seq<usize>| full(route, q) implies #[trigger] res[rm(route, q)] ==
        (if hits(access, nr, q) && q[n] < k + 1 { nv[rm(nr, q.skip(n))] } else { old[rm(route, q)] }) by {
        lemma_rm_bound(route, q);
        assert(mid[rm(route, q)] == (if hits(access, nr, q) && q[n] < k { nv[rm(nr, q.skip(n))] } else { old[rm(route, q)] }));
        if hits(access, nr, q) && q[n] == k {
            assert(q.take(n + 1) == ak);
            let t = q.skip(n);
            assert(t[0] == q[n]);
            assert(t.drop_first() == q.skip(n + 1));
            assert(nr.skip(1) == nr.drop_first());
            assert forall|i: int| 0 <= i < t.drop_first().len() implies #[trigger] t.drop_first()[i] < nr.skip(1)[i] by { assert(t.drop_first()[i] == t[i + 1]); }
            lemma_inb_split(route, ak, q);
            assert(hits(ak, nr.skip(1), q));
            lemma_rm_bound(nr.skip(1), t.drop_first());
            lemma_rm_one(nr, k as usize);
            assert(rm(nr, t) == rm(nr, seq![k as usize]) + rm(nr.skip(1), t.drop_first()));
            assert(nr.skip(1).skip(t.drop_first().len() as int) == Seq::<usize>::empty());
        } else if hits(ak, nr.skip(1), q) {
            // then q would go through access with q[n] == k
            assert(q.take(n + 1)[n] == k);
            assert(q.take(n) == q.take(n + 1).take(n));
            assert(ak.take(n) == access);
            let t = q.skip(n);
            assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < nr[i] by {
                if i > 0 { assert(t[i] == q.skip(n + 1)[i - 1]); assert(nr[i] == nr.skip(1)[i - 1]); }
            }
            assert(false);
        }
    }
}
%item TypeInvalidAccess
%item TypeAssignmentError
%item MemoryError
%item SliceCapacity
%item MemorySlice

%fn Clone@MemorySlice::clone
ensures r.route@ == self.route@, r.values@ == self.values@
%subst self.values.clone() => vec_clone(&self.values)

%fn MemorySlice::get_initial_cell
requires memory_slice.wf()
ensures r is Ok <==> inb(memory_slice.route@, access@),
    r is Ok ==> r->Ok_0 == rm(memory_slice.route@, access@),
    r is Err ==> r->Err_0 is OutOfBoundsError
%at start
proof { lemma_sub_fits_all(memory_slice.route@); assert(memory_slice.route@.skip(0) == memory_slice.route@); }
%loop 0
i <= access@.len(), access@.len() <= memory_slice.route@.len(), memory_slice.wf(),
cell_jump == prod(memory_slice.route@.skip(i as int)),
inb(memory_slice.route@, access@.take(i as int)),
cell == rm(memory_slice.route@, access@.take(i as int)),
decreases access@.len() - i
%at loop_start 0
proof {
    let rt = memory_slice.route@; let a = access@; let k = i as int;
    let n = rt[k] as int;
    assert(a.take(k + 1) == a.take(k) + seq![a[k]]);
    assert(rt.skip(k).drop_first() == rt.skip(k + 1));
    if a[k] < rt[k] {
        lemma_rm_append(rt, a.take(k), seq![a[k]]);
        lemma_rm_one(rt.skip(k), a[k]);
        let q = prod(rt.skip(k + 1));
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish(q, n);
        assert(prod(rt.skip(k)) == n * q);
        assert(n * q == q * n) by (nonlinear_arith);
        assert forall|j: int| 0 <= j < a.take(k + 1).len() implies #[trigger] a.take(k + 1)[j] < rt[j] by {
            if j < k { assert(a.take(k)[j] < rt[j]); }
        }
        lemma_rm_bound(rt, a.take(k + 1));
        lemma_rm_bound(rt, a.take(k));
        lemma_prod_nonneg(rt);  lemma_prod_nonneg(rt.skip(k+1));
        assert(q * a[k] == a[k] * q) by (nonlinear_arith);
        assert(prod(rt) <= usize::MAX);
    } else {
        assert(!inb(rt, a));
    }
}
%at after_loop 0
proof { assert(access@.take(access@.len() as int) == access@); }

%fn MemorySlice::check_correct_dims
requires memory_slice.wf(), access@.len() + new_values.route@.len() <= usize::MAX
ensures
    access@.len() + new_values.route@.len() > memory_slice.route@.len() ==> r is Err && r->Err_0 is OutOfBoundsError,
    access@.len() + new_values.route@.len() <= memory_slice.route@.len() ==> {
        &&& !inb(memory_slice.route@, access@) <==> r is Err && r->Err_0 is OutOfBoundsError
        &&& r is Ok <==> inb(memory_slice.route@, access@) && new_values.route@ == memory_slice.route@.subrange(access@.len() as int, (access@.len() + new_values.route@.len()) as int)
        &&& r is Err && inb(memory_slice.route@, access@) && is_strict ==> r->Err_0 is MismatchedDimensions
        &&& r is Err && inb(memory_slice.route@, access@) && !is_strict ==> r->Err_0 is MismatchedDimensionsWeak
    },
    r is Err ==> r->Err_0 is OutOfBoundsError || r->Err_0 is MismatchedDimensions || r->Err_0 is MismatchedDimensionsWeak
%loop 0
i <= access@.len(), access@.len() + new_values.route@.len() <= memory_slice.route@.len(),
forall|j: int| 0 <= j < i ==> #[trigger] access@[j] < memory_slice.route@[j],
decreases access@.len() - i
%loop 1
i <= new_values.route@.len(), initial_index_new == access@.len(), access@.len() + new_values.route@.len() <= memory_slice.route@.len(),
inb(memory_slice.route@, access@),
forall|j: int| 0 <= j < i ==> #[trigger] new_values.route@[j] == memory_slice.route@[initial_index_new + j],
decreases new_values.route@.len() - i
%at loop_start 1
proof { let s = memory_slice.route@.subrange(access@.len() as int, (access@.len() + new_values.route@.len()) as int); assert(s[i as int] == memory_slice.route@[initial_index_new + i]); }
%at after_loop 1
proof { assert(new_values.route@ =~= memory_slice.route@.subrange(access@.len() as int, (access@.len() + new_values.route@.len()) as int)); }

%fn MemorySlice::generate_new_route_from_access
requires memory_slice.wf()
ensures r is Ok <==> access@.len() <= memory_slice.route@.len(),
    r is Ok ==> r->Ok_0.0@ == memory_slice.route@.skip(access@.len() as int) && r->Ok_0.1 == prod(memory_slice.route@.skip(access@.len() as int)),
    r is Err ==> r->Err_0 is OutOfBoundsError
%at start
proof { lemma_sub_fits_all(memory_slice.route@); if access@.len() <= memory_slice.route@.len() { assert(memory_slice.route@.subrange(access@.len() as int, access@.len() as int) == Seq::<usize>::empty()); } }
%loop 0
access@.len() <= memory_slice.route@.len(),
size@ == memory_slice.route@.subrange(access@.len() as int, access@.len() + it_0.pos()),
number_of_cells == prod(size@),
%at loop_start 0
proof {
    let rt = memory_slice.route@; let a = access@.len() as int; let k = i as int;
    assert(rt.subrange(a, k + 1) == rt.subrange(a, k) + seq![rt[k]]);
    lemma_prod_append(rt.subrange(a, k), seq![rt[k]]);
    lemma_prod_one(rt[k]);
    assert(size@.push(rt[k]) == size@ + seq![rt[k]]);
}
%at after_loop 0
proof { assert(memory_slice.route@.skip(access@.len() as int) == memory_slice.route@.subrange(access@.len() as int, memory_slice.route@.len() as int)); }

%fn MemorySlice::generate_slice_from_access
requires memory_slice.wf()
ensures r is Ok <==> inb(memory_slice.route@, access@),
    r is Err ==> r->Err_0 is OutOfBoundsError,
    r is Ok ==> {
        &&& r->Ok_0.wf()
        &&& r->Ok_0.route@ == memory_slice.route@.skip(access@.len() as int)
        &&& r->Ok_0.values@ == memory_slice.values@.subrange(rm(memory_slice.route@, access@), rm(memory_slice.route@, access@) + prod(memory_slice.route@.skip(access@.len() as int)))
    }
%at start
proof {
    lemma_sub_fits_all(memory_slice.route@); assert(memory_slice.route@.skip(0) == memory_slice.route@);
    if inb(memory_slice.route@, access@) { lemma_rm_bound(memory_slice.route@, access@); }
    assert(memory_slice.values@ == memory_slice.values@.subrange(0, memory_slice.values@.len() as int));
}
%loop 0
offset <= number_of_cells, values@ == memory_slice.values@.subrange(initial_cell as int, initial_cell + offset),
initial_cell + number_of_cells <= memory_slice.values@.len(),
memory_slice.values@.len() <= usize::MAX,
decreases number_of_cells - offset
%at loop_end 0
proof { assert(values@ == memory_slice.values@.subrange(initial_cell as int, initial_cell + offset)); }

%fn MemorySlice::generate_references_from_access
requires memory_slice.wf()
ensures r is Ok <==> inb(memory_slice.route@, access@),
    r is Err ==> r->Err_0 is OutOfBoundsError,
    r is Ok ==> {
        &&& r->Ok_0@.len() == prod(memory_slice.route@.skip(access@.len() as int))
        &&& forall|i: int| 0 <= i < r->Ok_0@.len() ==> *(#[trigger] r->Ok_0@[i]) == memory_slice.values@[rm(memory_slice.route@, access@) + i]
    }
%at start
proof {
    lemma_sub_fits_all(memory_slice.route@); assert(memory_slice.route@.skip(0) == memory_slice.route@);
    if inb(memory_slice.route@, access@) { lemma_rm_bound(memory_slice.route@, access@); }
}
%subst let mut values = Vec::new(); => let mut values: Vec<&'a C> = Vec::new();
%subst let mut values = Vec::with_capacity => let mut values: Vec<&'a C> = Vec::with_capacity
%loop 0
values@.len() == it_0.pos(), forall|i: int| 0 <= i < values@.len() ==> *(#[trigger] values@[i]) == memory_slice.values@[i],
%loop 1
offset <= number_of_cells, values@.len() == offset, initial_cell + number_of_cells <= memory_slice.values@.len(),
forall|i: int| 0 <= i < values@.len() ==> *(#[trigger] values@[i]) == memory_slice.values@[initial_cell + i],
decreases number_of_cells - offset

%fn MemorySlice::generate_mut_references_from_access assume
requires memory_slice.wf()

%fn MemorySlice::new
ensures r.wf(), r.route@.len() == 0, r.values@ == seq![*initial_value]
%at start
proof { assert(fits(Seq::<usize>::empty())); }

%fn MemorySlice::new_array
ensures r.route == route, r.values == values

%fn MemorySlice::new_with_route
requires fits(route@)
ensures r.wf(), r.route@ == route@, forall|i: int| 0 <= i < r.values@.len() ==> #[trigger] r.values@[i] == *initial_value
%subst route.to_vec() => vslice_to_vec(route)
%subst length *= *i => length = length * *i
%at start
proof { lemma_sub_fits_all(route@); assert(route@.subrange(0, 0) == Seq::<usize>::empty()); assert(route@.subrange(0, route@.len() as int) == route@); }
%loop 0
length == prod(route@.subrange(0, it_0.pos())),
%at loop_start 0
proof {
    let k = it_0.pos() - 1;
    assert(route@.subrange(0, k + 1) == route@.subrange(0, k) + seq![route@[k]]);
    lemma_prod_append(route@.subrange(0, k), seq![route@[k]]);
    lemma_prod_one(route@[k]);
}
%loop 1
values@.len() == it_1.pos(), length == prod(route@), forall|i: int| 0 <= i < values@.len() ==> #[trigger] values@[i] == *initial_value,

%fn MemorySlice::insert_values
requires old(memory_slice).wf(), new_values.wf(),
    // the type checker guarantees the number of dimensions
    access@.len() + new_values.route@.len() >= old(memory_slice).route@.len(),
    access@.len() + new_values.route@.len() <= usize::MAX,
ensures final(memory_slice).wf(), final(memory_slice).route@ == old(memory_slice).route@,
    ({
        let rt = old(memory_slice).route@; let a = access@; let nr = new_values.route@;
        let ov = old(memory_slice).values@; let fv = final(memory_slice).values@;
        &&& r is Ok <==> inb(rt, a) && nr == rt.skip(a.len() as int)
        &&& r is Ok ==> block_written(rm(rt, a), ov, new_values.values@, fv) && written(rt, a, nr, ov, new_values.values@, fv)
        &&& (!inb(rt, a) || a.len() + nr.len() > rt.len()) <==> r is Err && r->Err_0 is OutOfBoundsError
        &&& (r is Err && r->Err_0 is OutOfBoundsError) ==> fv == ov
        &&& r is Err && !(r->Err_0 is OutOfBoundsError) && is_strict ==> r->Err_0 is MismatchedDimensions && fv == ov
        &&& r is Err && !(r->Err_0 is OutOfBoundsError) && !is_strict ==> r->Err_0 is MismatchedDimensionsWeak && written(rt, a, nr, ov, new_values.values@, fv)
    })
decreases new_values.route@.len()
%subst access.to_vec() => vslice_to_vec(access)
%subst for index in 0..new_values.route()[0] => for index in 0..new_values.route()[0]
%at start
let ghost rt = memory_slice.route@; let ghost ov = memory_slice.values@; let ghost nr = new_values.route@;
proof {
    lemma_sub_fits_all(rt); lemma_sub_fits_all(nr);
    assert(rt.skip(0) == rt);
    if nr.len() == 0 && access@.len() <= rt.len() { assert(nr =~= rt.subrange(access@.len() as int, access@.len() as int)); }
    if access@.len() + nr.len() == rt.len() { assert(rt.subrange(access@.len() as int, (access@.len() + nr.len()) as int) == rt.skip(access@.len() as int)); }
    if inb(rt, access@) { lemma_rm_bound(rt, access@); }
}
%loop 0
memory_slice.route@ == rt, memory_slice.values@.len() == ov.len(), new_values.wf(), old(memory_slice).wf(),
inb(rt, access@), nr == rt.skip(access@.len() as int), it_0.items().len() == prod(nr), rt == old(memory_slice).route@,
rm(rt, access@) + prod(nr) <= ov.len(), 
cell == rm(rt, access@) + it_0.pos(),
block_written(rm(rt, access@), ov, new_values.values@.take(it_0.pos()), memory_slice.values@),
%at post_loop 0
proof {
    assert(new_values.values@.take(prod(nr)) == new_values.values@);
    lemma_block_written(rt, access@, ov, new_values.values@, memory_slice.values@);
}
%loop 1
memory_slice.route@ == rt, memory_slice.wf(), aux_access@ == access@, nr.len() > 0, nr == new_values.route@, fits(nr), new_values.wf(), access@.len() + nr.len() == rt.len(),
inb(rt, access@), !is_strict, 
written_upto(rt, access@, nr, it_1.pos() as int, ov, new_values.values@, memory_slice.values@),
%at loop_start 1
let ghost mid = memory_slice.values@;
proof {
    lemma_sub_fits_all(nr);
    assert([index]@ =~= seq![index]);
    assert(inb(nr, seq![index]));
    lemma_rm_bound(nr, seq![index]);
}
%at loop_end 1
proof {
    assert(aux_access@ == access@);
    let row = new_values.values@.subrange(rm(nr, seq![index]), rm(nr, seq![index]) + prod(nr.skip(1)));
    lemma_written_step(rt, access@, nr, index as int, ov, new_values.values@, mid, row, memory_slice.values@);
}
%at post_loop 1
proof {
    let res = memory_slice.values@;
    assert forall|q: Seq<usize>| full(rt, q) implies #[trigger] res[rm(rt, q)] ==
        (if hits(access@, nr, q) { new_values.values@[rm(nr, q.skip(access@.len() as int))] } else { ov[rm(rt, q)] }) by {
        if hits(access@, nr, q) { assert(q.skip(access@.len() as int)[0] == q[access@.len() as int]); }
    }
}

%fn MemorySlice::insert_value_by_index
requires old(memory_slice).wf()
ensures r is Ok <==> index < old(memory_slice).values@.len(),
    r is Ok ==> final(memory_slice).values@ == old(memory_slice).values@.update(index as int, new_value) && final(memory_slice).route == old(memory_slice).route,
    r is Err ==> r->Err_0 is OutOfBoundsError && *final(memory_slice) == *old(memory_slice)

%fn MemorySlice::get_access_index ops
requires memory_slice.wf()
ensures r is Ok <==> index < memory_slice.values@.len(),
    r is Err ==> r->Err_0 is OutOfBoundsError,
    r is Ok ==> full(memory_slice.route@, r->Ok_0@) && rm(memory_slice.route@, r->Ok_0@) == index
%at start
let ghost rt = memory_slice.route@;
proof { lemma_sub_fits_all(memory_slice.route@); assert(rt.skip(0) == rt); }
%loop 0
rt == memory_slice.route@, access@.len() == it_0.pos(), index < prod(rt),
number_cells == prod(rt.skip(it_0.pos() as int)), index_aux < number_cells,
inb(rt, access@), rm(rt, access@) + index_aux == index,
%at loop_start 0
let ghost a0 = access@;
proof {
    let k = it_0.pos() - 1; let n = rt[k] as int; let q = prod(rt.skip(k + 1));
    assert(rt.skip(k).drop_first() == rt.skip(k + 1));
    lemma_prod_nonneg(rt.skip(k + 1));
    assert(prod(rt.skip(k)) == n * q);
    assert(n > 0 && q > 0) by (nonlinear_arith) requires n * q > 0, n >= 0, q >= 0;
    assert(n * q == q * n) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(q, n);
    let c = index_aux as int;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c, q);
    let h = c / q; let t = c % q;
    assert(0 <= h < n) by (nonlinear_arith) requires 0 <= c < n * q, q > 0, c == q * h + t, 0 <= t < q;
    assert(q * h == h * q) by (nonlinear_arith);
    let x = h as usize;
    lemma_rm_append(rt, a0, seq![x]);
    lemma_rm_one(rt.skip(k), x);
    assert(a0.push(x) == a0 + seq![x]);
    assert forall|j: int| 0 <= j < a0.push(x).len() implies #[trigger] a0.push(x)[j] < rt[j] by { if j < k { assert(a0[j] < rt[j]); } }
}
%at after_loop 0
proof { assert(rt.skip(rt.len() as int) == Seq::<usize>::empty()); }

%fn MemorySlice::access_values
requires memory_slice.wf()
ensures r is Ok <==> inb(memory_slice.route@, access@),
    r is Err ==> r->Err_0 is OutOfBoundsError,
    r is Ok ==> {
        &&& r->Ok_0.wf()
        &&& r->Ok_0.route@ == memory_slice.route@.skip(access@.len() as int)
        &&& r->Ok_0.values@ == memory_slice.values@.subrange(rm(memory_slice.route@, access@), rm(memory_slice.route@, access@) + prod(memory_slice.route@.skip(access@.len() as int)))
    }
%fn MemorySlice::access_values_by_reference
requires memory_slice.wf()
ensures r is Ok <==> inb(memory_slice.route@, access@),
    r is Err ==> r->Err_0 is OutOfBoundsError,
    r is Ok ==> {
        &&& r->Ok_0@.len() == prod(memory_slice.route@.skip(access@.len() as int))
        &&& forall|i: int| 0 <= i < r->Ok_0@.len() ==> *(#[trigger] r->Ok_0@[i]) == memory_slice.values@[rm(memory_slice.route@, access@) + i]
    }
%fn MemorySlice::access_value_by_index
requires memory_slice.wf()
ensures r is Ok <==> index < memory_slice.values@.len(),
    r is Ok ==> r->Ok_0 == memory_slice.values@[index as int],
    r is Err ==> r->Err_0 is OutOfBoundsError
%fn MemorySlice::access_values_by_index_mut_reference
requires old(memory_slice).wf()
ensures r is Ok <==> index < old(memory_slice).values@.len(),
    r is Err ==> r->Err_0 is OutOfBoundsError && *final(memory_slice) == *old(memory_slice),
    r is Ok ==> *(r->Ok_0) == old(memory_slice).values@[index as int],
    r is Ok ==> final(memory_slice).values@ == old(memory_slice).values@.update(index as int, *final(r->Ok_0)) && final(memory_slice).route == old(memory_slice).route
%subst memory_slice.values.get_mut(index).unwrap() => &mut memory_slice.values[index]
%fn MemorySlice::get_reference_values
ensures *r == memory_slice.values
%fn MemorySlice::get_reference_to_single_value
requires memory_slice.wf(), memory_slice.route@.len() == access@.len()
ensures r is Ok <==> inb(memory_slice.route@, access@),
    r is Ok ==> *(r->Ok_0) == memory_slice.values@[rm(memory_slice.route@, access@)],
    r is Err ==> r->Err_0 is OutOfBoundsError
%at start
proof { if inb(memory_slice.route@, access@) { lemma_rm_bound(memory_slice.route@, access@); } }
%fn MemorySlice::get_reference_to_single_value_by_index
requires memory_slice.wf()
ensures r is Ok <==> index < memory_slice.values@.len(),
    r is Ok ==> *(r->Ok_0) == memory_slice.values@[index as int],
    r is Err ==> r->Err_0 is OutOfBoundsError
%fn MemorySlice::get_reference_to_single_value_by_index_or_break
requires memory_slice.wf(), index < memory_slice.values@.len()
ensures *r == memory_slice.values@[index as int]
%fn MemorySlice::get_mut_reference_to_single_value
requires old(memory_slice).wf(), old(memory_slice).route@.len() == access@.len()
ensures r is Ok <==> inb(old(memory_slice).route@, access@),
    r is Err ==> r->Err_0 is OutOfBoundsError && *final(memory_slice) == *old(memory_slice),
    r is Ok ==> *(r->Ok_0) == old(memory_slice).values@[rm(old(memory_slice).route@, access@)],
    r is Ok ==> final(memory_slice).values@ == old(memory_slice).values@.update(rm(old(memory_slice).route@, access@), *final(r->Ok_0)) && final(memory_slice).route == old(memory_slice).route
%at start
proof { if inb(memory_slice.route@, access@) { lemma_rm_bound(memory_slice.route@, access@); } }
%fn MemorySlice::get_mut_reference_to_single_value_by_index
requires old(memory_slice).wf()
ensures r is Ok <==> index < old(memory_slice).values@.len(),
    r is Err ==> r->Err_0 is OutOfBoundsError && *final(memory_slice) == *old(memory_slice),
    r is Ok ==> *(r->Ok_0) == old(memory_slice).values@[index as int],
    r is Ok ==> final(memory_slice).values@ == old(memory_slice).values@.update(index as int, *final(r->Ok_0)) && final(memory_slice).route == old(memory_slice).route
%fn MemorySlice::get_number_of_cells
ensures r == memory_slice.values@.len()
%fn MemorySlice::route
ensures r@ == self.route@
%fn MemorySlice::route_value
ensures r@ == self.route@
%fn MemorySlice::is_single
ensures r == (self.route@.len() == 0)
%fn MemorySlice::unwrap_to_single
requires memory_slice.wf(), memory_slice.route@.len() == 0
ensures r == memory_slice.values@[0]
%fn MemorySlice::destruct
ensures r.0 == self.route, r.1 == self.values
%end
