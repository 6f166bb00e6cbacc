//! constraint systems given to the simplifiers, with exact oracles: Gaussian elimination for linear
//! systems of any size, full enumeration of the assignments for small fields
use crate::alg::*;
use crate::Rng;
use circom_algebra::algebra::{ArithmeticExpression as E, Constraint, Substitution};
use num_bigint::BigInt;
use num_traits::ToPrimitive;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub type C = Constraint<usize>;
pub type Row = BTreeMap<usize, u64>;
pub fn row(m: &Lin, p: u64) -> Row { m.iter().map(|(k, v)| (*k, (crate::emod(v, &BigInt::from(p))).to_u64().unwrap())).filter(|x| x.1 != 0).collect() }
fn mul(a: u64, b: u64, p: u64) -> u64 { ((a as u128 * b as u128) % p as u128) as u64 }
fn inv(a: u64, p: u64) -> u64 {
    let (mut r, mut b, mut e) = (1u64, a, p - 2);
    while e > 0 { if e & 1 == 1 { r = mul(r, b, p); } b = mul(b, b, p); e >>= 1; }
    r
}
/// reduced row echelon form of affine equations (column 0 is the constant, never a pivot);
/// None when the system has no solution
pub fn rref(rows: &[Row], p: u64) -> Option<BTreeMap<usize, Row>> {
    let mut piv: BTreeMap<usize, Row> = BTreeMap::new();
    for r in rows {
        let mut r = r.clone();
        loop {
            // reduce by existing pivots
            let hit = r.iter().find(|(k, _)| piv.contains_key(k)).map(|(k, v)| (*k, *v));
            match hit {
                Some((k, v)) => { let q = &piv[&k]; axpy(&mut r, q, p - v, p); }
                None => break,
            }
        }
        let k = match r.keys().find(|k| **k != 0) { Some(k) => *k, None => { if r.is_empty() { continue; } else { return None; } } };
        let i = inv(r[&k], p);
        for v in r.values_mut() { *v = mul(*v, i, p); }
        let ks: Vec<usize> = piv.iter().filter(|(_, q)| q.contains_key(&k)).map(|x| *x.0).collect();
        for j in ks { let mut q = piv.remove(&j).unwrap(); let v = q[&k]; axpy(&mut q, &r, p - v, p); piv.insert(j, q); }
        piv.insert(k, r);
    }
    // canonical: pivots may differ by row order; redo with smallest columns first
    Some(piv)
}
fn axpy(r: &mut Row, q: &Row, f: u64, p: u64) {
    for (k, v) in q {
        let e = r.entry(*k).or_insert(0);
        *e = ((*e as u128 + mul(*v, f, p) as u128) % p as u128) as u64;
        if *e == 0 { r.remove(k); }
    }
}
/// every row of `b` follows from the echelon form `a`
fn implied(a: &BTreeMap<usize, Row>, b: &[Row], p: u64) -> Option<usize> {
    for (i, r) in b.iter().enumerate() {
        let mut r = r.clone();
        loop {
            let hit = r.iter().find(|(k, _)| a.contains_key(k)).map(|(k, v)| (*k, *v));
            match hit { Some((k, v)) => axpy(&mut r, &a[&k], p - v, p), None => break }
        }
        if !r.is_empty() { return Some(i); }
    }
    None
}
/// the two affine systems have the same solutions
pub fn equivalent(a: &[Row], b: &[Row], p: u64) -> Result<(), String> {
    match (rref(a, p), rref(b, p)) {
        (None, None) => Ok(()),
        (None, Some(_)) => Err("the input has no solution, the output has".into()),
        (Some(_), None) => Err("the input has solutions, the output has none".into()),
        (Some(x), Some(y)) => {
            if let Some(i) = implied(&x, b, p) { return Err(format!("output equation {:?} does not follow from the input", b[i])); }
            if let Some(i) = implied(&y, a, p) { return Err(format!("input equation {:?} does not follow from the output", a[i])); }
            Ok(())
        }
    }
}
pub fn sub_row(s: &Substitution<usize>, p: u64) -> Row {
    let mut r = row(s.to(), p);
    let e = r.entry(*s.from()).or_insert(0);
    *e = (*e + p - 1) % p;
    if *e == 0 { r.remove(s.from()); }
    r
}
/// a normalised linear constraint, None when trivial
pub fn linear(m: Lin, p: &BigInt) -> C {
    let mut m = m;
    m.entry(0).or_insert(BigInt::from(0));
    let mut c = E::transform_expression_to_constraint_form(E::Linear { coefficients: m }, p).unwrap();
    Constraint::fix_constraint(&mut c, p);
    c
}
pub fn rand_lin(r: &mut Rng, n: usize, terms: usize, p: u64) -> Lin {
    let mut m = Lin::new();
    if r.chance(1, 2) { m.insert(0, BigInt::from(r.below(p))); }
    for _ in 0..(1 + r.us(terms)) {
        let v = match r.below(3) { 0 => 1, 1 => p - 1, _ => r.below(p) };
        m.insert(1 + r.us(n - 1), BigInt::from(v));
    }
    m
}
/// u64 form of a constraint for enumeration
pub struct Fast { a: Vec<(usize, u64)>, b: Vec<(usize, u64)>, c: Vec<(usize, u64)> }
pub fn fast(c: &C, p: u64) -> Fast { let f = |m: &Lin| row(m, p).into_iter().collect(); Fast { a: f(c.a()), b: f(c.b()), c: f(c.c()) } }
fn fe(m: &[(usize, u64)], w: &[u64], p: u64) -> u64 { m.iter().fold(0, |s, (k, v)| (s + v * w[*k]) % p) }
pub fn sat(cs: &[Fast], w: &[u64], p: u64) -> bool { cs.iter().all(|c| fe(&c.a, w, p) * fe(&c.b, w, p) % p == fe(&c.c, w, p)) }
/// solutions over signals 0..n (w[0] = 1), projected on `keep` in order
pub fn solutions(cs: &[Fast], n: usize, keep: &[usize], p: u64) -> BTreeSet<Vec<u64>> {
    let mut out = BTreeSet::new();
    let mut w = vec![0u64; n];
    w[0] = 1;
    loop {
        if sat(cs, &w, p) { out.insert(keep.iter().map(|k| w[*k]).collect()); }
        let mut i = 1;
        while i < n { w[i] += 1; if w[i] < p { break; } w[i] = 0; i += 1; }
        if i >= n { return out; }
    }
}
pub fn signals(c: &C) -> HashSet<usize> { c.a().keys().chain(c.b().keys()).chain(c.c().keys()).cloned().filter(|k| *k != 0).collect() }
pub fn same_map(m: &HashMap<usize, usize>) -> Vec<usize> { let mut v: Vec<_> = m.keys().cloned().collect(); v.sort(); v }
