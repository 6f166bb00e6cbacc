use circom_algebra::algebra::Constraint;
use circom_algebra::constraint_storage::ConstraintStorage;
use harness::alg::*;
use harness::*;
use num_bigint::BigInt;
use std::collections::BTreeMap;

type Parts = (BTreeMap<usize, BigInt>, BTreeMap<usize, BigInt>, BTreeMap<usize, BigInt>);
type C = Constraint<usize>;
fn parts(c: &C) -> Parts {
    let f = |m: &Lin| m.iter().map(|(k, v)| (*k, v.clone())).collect::<BTreeMap<_, _>>();
    (f(c.a()), f(c.b()), f(c.c()))
}
fn check(s: &ConstraintStorage, m: &[Parts], only: Option<usize>) -> Result<(), String> {
    for i in 0..m.len() {
        if only.map_or(false, |o| o != i) { continue; }
        match s.read_constraint(i) {
            None => return Err(format!("identifier {} is not readable", i)),
            Some(c) => if parts(&c) != m[i] { return Err(format!("identifier {} returns {} instead of {:?}", i, show_c(&c), m[i])); }
        }
    }
    if s.read_constraint(m.len()).is_some() || s.read_constraint(usize::MAX).is_some() { return Err("an identifier that was never handed out is readable".into()); }
    if s.get_ids() != (0..m.len()).collect::<Vec<_>>() { return Err("get_ids is not 0..n".into()); }
    Ok(())
}
fn pred(k: u64, p: &Parts) -> bool {
    match k { 0 => p.0.is_empty(), 1 => p.2.len() % 2 == 0, 2 => p.2.contains_key(&1), 3 => false, _ => true }
}
fn main() {
    let mut h = Harness::new("a case is a history of add / replace / extract / read operations on one store; non-trivial when something is stored");
    let p = big(PRIMES[0].1);
    let g = big(PRIMES[2].1);
    // many constants in one store
    for p in [&p, &g] {
        let seed = h.rng.next();
        h.case("many-constants", format!("70000 constraints x 2 constants, seed {}, prime {}", seed, p), || {
            let mut r = Rng::new(seed);
            let (mut s, mut m) = (ConstraintStorage::new(), vec![]);
            for i in 0..70000usize {
                let mut l: Lin = Lin::new();
                l.insert(i, BigInt::from(i + 2));
                l.insert(i + 1, r.elem(p));
                let e = circom_algebra::algebra::ArithmeticExpression::Linear { coefficients: { l.insert(0, BigInt::from(0)); l } };
                let c: C = circom_algebra::algebra::ArithmeticExpression::transform_expression_to_constraint_form(e, p).unwrap();
                m.push(parts(&c));
                if s.add_constraint(c) != i { return Err("identifiers are not consecutive".into()); }
            }
            check(&s, &m, None)?;
            Ok(true)
        });
    }
    while h.time_left() {
        let p = if h.rng.chance(1, 3) { g.clone() } else { p.clone() };
        let n = 1 + h.rng.us(6);
        let len = 1 + h.rng.us(40);
        let mut pool: Vec<C> = vec![];
        for _ in 0..(1 + h.rng.us(12)) {
            let mut c = constraint(&mut h.rng, n, &p);
            if h.rng.chance(1, 2) { Constraint::fix_constraint(&mut c, &p); }
            if h.rng.chance(1, 10) { c = Constraint::empty(); }
            if h.rng.chance(1, 10) { c = Constraint::apply_offset(&c, h.rng.us(1 << 40)); }
            pool.push(c);
        }
        let mut ops = vec![];
        for _ in 0..len { ops.push((h.rng.us(8), h.rng.us(64), h.rng.us(pool.len()), h.rng.below(5))); }
        let d = format!("{:?} over {}", ops, pool.iter().map(show_c).collect::<Vec<_>>().join(" ; "));
        h.case("storage-history", d, || {
            let mut s = ConstraintStorage::new();
            let mut m: Vec<Parts> = vec![];
            check(&s, &m, None)?;
            for (o, i, c, k) in &ops {
                let c = &pool[*c];
                match o {
                    0..=3 => { let id = s.add_constraint(c.clone()); if id != m.len() { return Err(format!("identifier {} after {} insertions", id, m.len())); } m.push(parts(c)); }
                    4 | 5 => { s.replace(*i, c.clone()); if *i < m.len() { m[*i] = parts(c); } }
                    6 => { check(&s, &m, Some(*i))?; }
                    _ => if i % 8 == 0 {
                        let out = s.extract_with(&|x: &C| pred(*k, &parts(x)));
                        let (want, keep): (Vec<_>, Vec<_>) = m.iter().cloned().partition(|x| pred(*k, x));
                        if out.iter().map(parts).collect::<Vec<_>>() != want { return Err("extract_with returned other constraints".into()); }
                        m = keep;
                    }
                }
                check(&s, &m, None)?;
            }
            Ok(!m.is_empty())
        });
    }
    h.finish();
}
