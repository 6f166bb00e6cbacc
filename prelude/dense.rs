// the positions are 0..k, each taken once, in the order of the signals
pub open spec fn dense(m: Map<usize, usize>) -> bool {
    &&& forall|s: usize| #[trigger] m.contains_key(s) ==> m[s] < m.dom().len()
    &&& forall|s: usize, t: usize| #[trigger] m.contains_key(s) && #[trigger] m.contains_key(t) && s < t ==> m[s] < m[t]
}
pub open spec fn taken(m: Map<usize, usize>, j: int) -> bool { exists|s: usize| #[trigger] m.contains_key(s) && m[s] == j }
// counting: an injective map into 0..k from k elements takes every value
pub proof fn lemma_dense(m: Map<usize, usize>)
    requires dense(m)
    ensures forall|j: int| 0 <= j < m.dom().len() ==> #[trigger] taken(m, j)
{
    let img = m.dom().map(|s: usize| m[s] as int);
    vstd::set_lib::lemma_map_size(m.dom(), img, |s: usize| m[s] as int);
    let all = vstd::set_lib::set_int_range(0, m.dom().len() as int);
    vstd::set_lib::lemma_int_range(0, m.dom().len() as int);
    assert(img.subset_of(all));
    vstd::set_lib::lemma_subset_equality(img, all);
    assert forall|j: int| 0 <= j < m.dom().len() implies #[trigger] taken(m, j) by { assert(img.contains(j)); let s = choose|s: usize| m.dom().contains(s) && m[s] as int == j; assert(m.contains_key(s)); }
}
