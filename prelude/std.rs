#[verifier::external_body]
pub fn vec_from_elem<T>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]) == x { unimplemented!() }
pub assume_specification<T, A: std::alloc::Allocator>[Vec::<T, A>::shrink_to_fit](v: &mut Vec<T, A>)
    ensures final(v)@ == old(v)@;
pub assume_specification<T>[std::mem::replace](d: &mut T, s: T) -> (r: T)
    ensures *final(d) == s, r == *old(d);
