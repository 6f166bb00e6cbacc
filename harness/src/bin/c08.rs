use harness::*;
use program_structure::memory_slice::*;
use std::collections::BTreeMap;
type M = MemorySlice<u32>;
type P = Vec<usize>;
fn paths(route: &[usize]) -> Vec<P> {
    let mut v = vec![vec![]];
    for d in route {
        let mut n = vec![];
        for p in &v { for i in 0..*d { let mut q: P = p.clone(); q.push(i); n.push(q); } }
        v = n;
    }
    v
}
fn mk(route: &[usize], base: u32) -> (M, BTreeMap<P, u32>) {
    let ps = paths(route);
    let vals: Vec<u32> = (0..ps.len()).map(|i| base + i as u32).collect();
    // built cell by cell through the public writer, starting from a constant array
    let mut m = M::new_with_route(route, &7);
    for (p, v) in ps.iter().zip(&vals) {
        *M::get_mut_reference_to_single_value(&mut m, p).ok().unwrap() = *v;
    }
    (m, ps.into_iter().zip(vals).collect())
}
fn inb(route: &[usize], a: &[usize]) -> bool { a.len() <= route.len() && a.iter().zip(route).all(|(x, d)| x < d) }
fn agree(m: &M, route: &[usize], model: &BTreeMap<P, u32>, what: &str) -> Result<(), String> {
    if m.route() != route { return Err(format!("{}: shape {:?}, expected {:?}", what, m.route(), route)); }
    if M::get_number_of_cells(m) != model.len() { return Err(format!("{}: {} cells, expected {}", what, M::get_number_of_cells(m), model.len())); }
    for (i, (p, v)) in model.iter().enumerate() {
        match M::get_reference_to_single_value(m, p) {
            Ok(x) if x == v => {}
            Ok(x) => return Err(format!("{}: cell {:?} holds {}, expected {}", what, p, x, v)),
            Err(_) => return Err(format!("{}: cell {:?} reported out of bounds", what, p)),
        }
        // row-major order of the linear index
        match M::access_value_by_index(m, i) { Ok(x) if x == *v => {} _ => return Err(format!("{}: linear index {}", what, i)) }
        match M::get_access_index(m, i) { Ok(q) if &q == p => {} Ok(q) => return Err(format!("{}: index {} has path {:?}, expected {:?}", what, i, q, p)), Err(_) => return Err(format!("{}: path of index {}", what, i)) }
        if M::get_reference_values(m)[i] != *v { return Err(format!("{}: values[{}]", what, i)); }
        match M::get_reference_to_single_value_by_index(m, i) { Ok(x) if x == v => {} _ => return Err(format!("{}: reference by index {}", what, i)) }
    }
    Ok(())
}
fn oob<T>(r: &Result<T, MemoryError>) -> bool { matches!(r, Err(MemoryError::OutOfBoundsError)) }
fn one(route: &[usize], access: &[usize], nroute: &[usize], strict: bool, idx: usize) -> Result<bool, String> {
    let (m, model) = mk(route, 100);
    agree(&m, route, &model, "initial")?;
    let ok = inb(route, access);
    // ---- reads
    let sub: Vec<u32> = model.iter().filter(|(p, _)| p.starts_with(access)).map(|(_, v)| *v).collect();
    let r = M::access_values(&m, access);
    match &r {
        Ok(s) if ok => {
            let sm: BTreeMap<P, u32> = model.iter().filter(|(p, _)| p.starts_with(access)).map(|(p, v)| (p[access.len()..].to_vec(), *v)).collect();
            agree(s, &route[access.len()..], &sm, "access_values")?;
        }
        Ok(_) => return Err("access_values accepted an invalid path".into()),
        Err(_) => if ok || !oob(&r) { return Err("access_values: wrong error".into()); }
    }
    let r = M::access_values_by_reference(&m, access);
    match &r {
        Ok(s) if ok => if s.iter().map(|x| **x).collect::<Vec<_>>() != sub { return Err("access_values_by_reference: wrong cells".into()); },
        Ok(_) => return Err("access_values_by_reference accepted an invalid path".into()),
        Err(_) => if ok || !oob(&r) { return Err("access_values_by_reference: wrong error".into()); }
    }
    {
        let mut m2 = m.clone();
        let r = M::access_values_by_mut_reference(&mut m2, access);
        match r {
            Ok(s) if ok => {
                if s.iter().map(|x| **x).collect::<Vec<_>>() != sub { return Err("access_values_by_mut_reference: wrong cells".into()); }
                for x in s { *x += 5000; }
                let mm: BTreeMap<P, u32> = model.iter().map(|(p, v)| (p.clone(), if p.starts_with(access) { v + 5000 } else { *v })).collect();
                agree(&m2, route, &mm, "writing through mutable references")?;
            }
            Ok(_) => return Err("access_values_by_mut_reference accepted an invalid path".into()),
            Err(e) => if ok || !matches!(e, MemoryError::OutOfBoundsError) { return Err("access_values_by_mut_reference: wrong error".into()); }
        }
    }
    // ---- linear index
    let n = model.len();
    let mut m2 = m.clone();
    let r = M::insert_value_by_index(&mut m2, idx, 9999);
    let ps: Vec<P> = model.keys().cloned().collect();
    if idx < n {
        if r.is_err() { return Err("insert_value_by_index refused a valid index".into()); }
        let mut mm = model.clone(); mm.insert(ps[idx].clone(), 9999);
        agree(&m2, route, &mm, "insert_value_by_index")?;
    } else {
        if !oob(&r) { return Err("insert_value_by_index: no out-of-bounds error".into()); }
        agree(&m2, route, &model, "failed insert_value_by_index")?;
        if !oob(&M::access_value_by_index(&m, idx)) || !oob(&M::get_access_index(&m, idx)) || !oob(&M::get_reference_to_single_value_by_index(&m, idx))
            || !oob(&M::get_mut_reference_to_single_value_by_index(&mut m2, idx)) || !oob(&M::access_values_by_index_mut_reference(&mut m2, idx)) {
            return Err(format!("index {} of {} cells accepted", idx, n));
        }
    }
    if access.len() == route.len() && !ok {
        if !oob(&M::get_reference_to_single_value(&m, access)) || !oob(&M::get_mut_reference_to_single_value(&mut m2, access)) { return Err("single-cell access accepted an invalid path".into()); }
    }
    // ---- writes
    if access.len() + nroute.len() >= route.len() {
        let (nv, nmodel) = mk(nroute, 1000);
        let mut m2 = m.clone();
        let r = M::insert_values(&mut m2, access, &nv, strict);
        let long = access.len() + nroute.len() > route.len();
        let want_ok = ok && !long && route[access.len()..] == *nroute;
        let mut mm = model.clone();
        if want_ok || (ok && !long && !strict) {
            for (q, v) in &nmodel {
                let mut p = access.to_vec(); p.extend(q);
                if mm.contains_key(&p) { mm.insert(p, *v); }
            }
        }
        match (&r, want_ok) {
            (Ok(_), true) => {}
            (Ok(_), false) => return Err("insert_values accepted a wrong shape or path".into()),
            (Err(_), true) => return Err("insert_values refused a fitting value".into()),
            (Err(MemoryError::OutOfBoundsError), _) => if ok && !long { return Err("insert_values: out of bounds instead of a size mismatch".into()); },
            (Err(MemoryError::MismatchedDimensions(..)), _) => if !ok || long || !strict { return Err("insert_values: wrong kind of error".into()); },
            (Err(MemoryError::MismatchedDimensionsWeak(..)), _) => if !ok || long || strict { return Err("insert_values: wrong kind of error".into()); },
            _ => return Err("insert_values: unexpected error".into()),
        }
        agree(&m2, route, &mm, "insert_values")?;
        let c = M::check_correct_dims(&m, access, &nv, strict);
        if c.is_ok() != want_ok { return Err("check_correct_dims disagrees".into()); }
    }
    Ok(!route.is_empty())
}
fn main() {
    let mut h = Harness::new("a case is (shape, access path, shape written, strictness, linear index); non-trivial when the array has at least one dimension");
    // exhaustive small shapes
    let mut shapes: Vec<P> = vec![vec![]];
    for a in 0..4 { shapes.push(vec![a]); for b in 0..4 { shapes.push(vec![a, b]); for c in 0..3 { shapes.push(vec![a, b, c]); } } }
    loop {
        let r = h.rng.pick(&shapes).clone();
        let r: P = if h.rng.chance(1, 6) { (0..h.rng.us(5)).map(|_| 1 + h.rng.us(3)).collect() } else { r };
        let al = h.rng.us(r.len() + 2);
        let acc: P = (0..al).map(|i| { let d = *r.get(i).unwrap_or(&2); if h.rng.chance(1, 8) { d + h.rng.us(2) } else { h.rng.us(d.max(1)) } }).collect();
        let nr: P = if al <= r.len() && h.rng.chance(1, 2) { r[al..].to_vec() }
            else { let k = if al <= r.len() && h.rng.chance(4, 5) { r.len() - al } else { h.rng.us(4) }; (0..k).map(|i| { let d = *r.get(al + i).unwrap_or(&2); if h.rng.chance(1, 2) { d } else { h.rng.us(4) } }).collect() };
        let n: usize = r.iter().product();
        let idx = match h.rng.us(4) { 0 => n, 1 => n + 1 + h.rng.us(3), _ => h.rng.us(n.max(1)) };
        let strict = h.rng.chance(1, 2);
        let d = format!("shape {:?} access {:?} written {:?} strict {} index {}", r, acc, nr, strict, idx);
        h.case("memory-slice", d, || one(&r, &acc, &nr, strict, idx));
        if !h.time_left() { break; }
    }
    h.finish();
}
