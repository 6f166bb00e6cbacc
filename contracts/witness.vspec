%use ops.rs
%use bigint.rs
%use std.rs
%use iter.rs
%use field.rs
%use maps.rs
%use lin.rs
%use vstring.rs
%use dense.rs
%import modarith.fns assume=modarith
%import algebra.fns assume=algebra
%import storage.fns assume=storage
%mod clist
%source constraint_list/src/lib.rs
%verbatim
use super::csimp::*;
%end
%item SignalMap
%item SignalInfo
%item IteratorSignal
%verbatim
#[verifier::external_body]
pub struct DAGEncoding { x: u8 }
pub use super::constraint_storage::ConstraintStorage;
%end
%item ConstraintList
%fn IteratorSignal::new ret=r
ensures r.original == signal.id, r.name == signal.name,
    map@.contains_key(signal.id) ==> r.witness == map@[signal.id], !map@.contains_key(signal.id) ==> r.witness == map@.dom().len()
%import clw.fns
%mod csimp
%source constraint_list/src/constraint_simplification.rs
%verbatim
use super::clist::*;
use super::constraint_storage::*;
%end
%item SignalToConstraints
%verbatim
// a signal keeps a position unless it was eliminated or is used nowhere
pub open spec fn kept(s: int, del: Set<usize>, forb: Set<usize>, occ: Set<usize>, ru: bool) -> bool {
    !del.contains(s as usize) && !(ru && !forb.contains(s as usize) && !occ.contains(s as usize))
}
// how many signals below s are kept
pub open spec fn rank(s: int, del: Set<usize>, forb: Set<usize>, occ: Set<usize>, ru: bool) -> int decreases s when s >= 0 {
    if s == 0 { 0 } else { rank(s - 1, del, forb, occ, ru) + (if kept(s - 1, del, forb, occ, ru) { 1int } else { 0int }) }
}
pub proof fn lemma_rank(a: int, b: int, del: Set<usize>, forb: Set<usize>, occ: Set<usize>, ru: bool)
    requires 0 <= a <= b
    ensures 0 <= rank(a, del, forb, occ, ru) <= rank(b, del, forb, occ, ru) <= b, a < b && kept(a, del, forb, occ, ru) ==> rank(a, del, forb, occ, ru) < rank(b, del, forb, occ, ru)
    decreases b
{ if b > 0 { if a < b { lemma_rank(a, b - 1, del, forb, occ, ru); } else { lemma_rank(a - 1, b - 1, del, forb, occ, ru); } } }
%end
%fn rebuild_witness ret=r
ensures forall|s: usize| #[trigger] r@.contains_key(s) == (s < max_signal && kept(s as int, old(deleted)@, forbidden@, non_linear_map@.dom(), remove_unused)),
    dense(r@),
    forall|s: usize| #[trigger] final(deleted)@.contains(s) == (old(deleted)@.contains(s) || (s < max_signal && !kept(s as int, old(deleted)@, forbidden@, non_linear_map@.dom(), remove_unused)))
%subst LinkedList::new() => LinkedList::<usize>::new()
%at start
let ghost (d0, fb, oc, ru) = (deleted@, forbidden@, non_linear_map@.dom(), remove_unused);
%loop 0
fb == forbidden@, oc == non_linear_map@.dom(), ru == remove_unused, g_0.start == 0 && g_0.end == max_signal,
0 <= rank(it_0.pos(), d0, fb, oc, ru) <= it_0.pos(),
forall|s: usize| #[trigger] deleted@.contains(s) == (d0.contains(s) || (s < it_0.pos() && !kept(s as int, d0, fb, oc, ru))),
forall|s: usize| #[trigger] map@.contains_key(s) == (s < it_0.pos() && kept(s as int, d0, fb, oc, ru)),
forall|s: usize| #[trigger] map@.contains_key(s) ==> map@[s] == rank(s as int, d0, fb, oc, ru),
map@.dom().len() == rank(it_0.pos(), d0, fb, oc, ru),
free@.len() == it_0.pos() - rank(it_0.pos(), d0, fb, oc, ru), forall|i: int| 0 <= i < free@.len() ==> #[trigger] free@[i] == rank(it_0.pos(), d0, fb, oc, ru) + i
%at loop_start 0
proof { assert(signal == it_0.pos() - 1); assert(deleted@.contains(signal) == d0.contains(signal)); lemma_rank(signal as int, signal + 1, d0, fb, oc, ru); assert(!map@.contains_key(signal)); }
%at post_loop 0
proof {
    assert forall|s: usize| #[trigger] map@.contains_key(s) implies map@[s] < map@.dom().len() by { lemma_rank(s as int, max_signal as int, d0, fb, oc, ru); }
    assert forall|s: usize, t: usize| #[trigger] map@.contains_key(s) && #[trigger] map@.contains_key(t) && s < t implies map@[s] < map@[t] by { lemma_rank(s as int, t as int, d0, fb, oc, ru); }
}

%verbatim
pub open spec fn g_mentions(g: G, k: usize) -> bool { k != 0 && (g.a.contains_key(k) || g.b.contains_key(k) || g.c.contains_key(k)) }
pub open spec fn occurs_in(gs: Seq<G>, n: int, k: usize) -> bool { exists|i: int| 0 <= i < n && g_mentions(#[trigger] gs[i], k) }
%end
%fn build_non_linear_signal_map ret=r
requires non_linear.wf()
ensures forall|k: usize| #[trigger] r@.contains_key(k) == occurs_in(non_linear.gs(), non_linear.gs().len() as int, k)
%subst LinkedList::new() => LinkedList::<usize>::new()
%loop 0
non_linear.wf(), g_0@.len() == non_linear.gs().len(), forall|i: int| 0 <= i < g_0@.len() ==> #[trigger] g_0@[i] == i,
forall|k: usize| #[trigger] map@.contains_key(k) == occurs_in(non_linear.gs(), it_0.pos(), k)
%at after_let constraint 0
let ghost i0 = it_0.pos() - 1;
let ghost m0 = map@;
proof {
    assert(content(constraint) == non_linear.gs()[i0]);
    assert forall|k: usize| #[trigger] occurs_in(non_linear.gs(), i0 + 1, k) == (occurs_in(non_linear.gs(), i0, k) || g_mentions(content(constraint), k)) by {
        let gs = non_linear.gs();
        if occurs_in(gs, i0 + 1, k) { let i = choose|i: int| 0 <= i < i0 + 1 && g_mentions(#[trigger] gs[i], k); if i < i0 { assert(occurs_in(gs, i0, k)); } }
        if occurs_in(gs, i0, k) { let i = choose|i: int| 0 <= i < i0 && g_mentions(#[trigger] gs[i], k); assert(0 <= i < i0 + 1 && g_mentions(gs[i], k)); }
        if g_mentions(content(constraint), k) { assert(g_mentions(gs[i0], k)); }
    }
}
%loop 1
forall|k: usize| #[trigger] map@.contains_key(k) == (m0.contains_key(k) || vseen(it_1.items(), it_1.pos(), k))
%at loop_start 1
proof { lemma_vseen(it_1.items(), g_1@, it_1.pos() - 1); }
%at after_loop 1
proof { lemma_vseen(it_1.items(), g_1@, it_1.items().len() as int);
    assert forall|k: usize| #[trigger] g_mentions(content(constraint), k) == g_1@.contains(k) by { assert(g_1@.contains(k) == (constraint.mentions(k) && k != 0)); } }
