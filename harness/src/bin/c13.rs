// Constraints of whole compilations: at --O0 exactly those of every instance; at every level the honest witness satisfies them.
use harness::e2e::*;
use harness::*;
use num_bigint::BigInt;
use std::collections::{BTreeMap, BTreeSet, HashMap};
fn named(l: &RLin, names: &[String], map: &[usize]) -> Result<Form, String> {
    let mut f = Form::new();
    for (w, v) in l { let s = *map.get(*w).ok_or("a constraint uses a wire that does not exist")?; let n = names.get(s).ok_or("a wire that is no signal")?; if f.insert(n.clone(), v.clone()).is_some() { return Err("a signal occurs twice in a linear combination".into()); } }
    Ok(f)
}
fn value(f: &Form, w: &HashMap<String, BigInt>) -> Result<BigInt, String> { let mut t = BigInt::from(0); for (n, v) in f { t += v * w.get(n).ok_or_else(|| format!("no value of {}", n))?; } Ok(t) }
fn check(g: &Prog, mode: usize, dir: &str, seed: u64) -> Result<bool, String> {
    let o = compile(&g.text(), g.prime, mode, dir)?;
    let p = g.p();
    let r = read_r1cs(&o.r1cs)?;
    ensure(r.prime == p, "another prime")?;
    let mut names = vec![String::new()];
    names.extend(g.layout().into_iter().map(|x| x.0));
    let mut rng = Rng::new(seed);
    let w = g.witness(&mut || { let b = rng.us(1 << 20) as u64; emod(&(BigInt::from(b) * BigInt::from(rng.us(1 << 30) as u64) - BigInt::from(7)), &p) });
    let mut got: BTreeMap<Poly, usize> = BTreeMap::new();
    if mode == 0 { ensure(r.map.len() == names.len(), "a signal is missing at --O0")?; }
    for c in &r.cons {
        let [a, b, c] = [named(&c[0], &names, &r.map)?, named(&c[1], &names, &r.map)?, named(&c[2], &names, &r.map)?];
        let d = value(&a, &w)? * value(&b, &w)? - value(&c, &w)?;
        ensure(emod(&d, &p) == BigInt::from(0), "the honest witness does not satisfy a constraint of the file")?;
        let neg: Form = c.into_iter().map(|(n, v)| (n, emod(&-v, &p))).collect();
        *got.entry(monic(poly(&a, &b, &neg, &p), &p)).or_default() += 1;
    }
    if mode == 0 {
        let mut want: BTreeMap<Poly, usize> = BTreeMap::new();
        for q in g.polys() { if !q.is_empty() { *want.entry(monic(q, &p)).or_default() += 1; } }
        got.remove(&Poly::new());
        for (q, n) in &want { ensure(got.get(q) == Some(n), &format!("constraint {:?} occurs {} times instead of {}", q, got.get(q).unwrap_or(&0), n))?; }
        ensure(got.len() == want.len(), "a constraint that no instance has")?;
        let labels: Vec<usize> = read_sym(&o.sym)?.iter().map(|l| { if l.label as i64 == l.wire { l.label } else { usize::MAX } }).collect();
        let mut s = labels.clone(); s.sort();
        ensure(s == (1..names.len()).collect::<Vec<_>>(), "the .sym file does not list each signal once with its own number")?;
    }
    else {
        let kept: BTreeSet<&str> = r.map.iter().map(|s| names[*s].as_str()).collect();
        for (n, t) in g.layout() { ensure(!g.tm[t].custom || kept.contains(n.as_str()), &format!("signal {} of a custom gate was removed", n))?; }
        if names.len() < 150 { equivalent(&g.polys(), &got.into_keys().collect::<Vec<_>>(), &kept, &p)?; }
    }
    Ok(g.polys().len() > 2)
}
type Row = BTreeMap<(bool, String), BigInt>; // removed signals first, the constant ("") first among the kept but never a pivot
fn key(n: &str, kept: &BTreeSet<&str>) -> (bool, String) { (n.is_empty() || kept.contains(n), n.to_string()) }
fn pivot(r: &Row) -> Option<&(bool, String)> { r.keys().find(|k| !k.1.is_empty()) }
fn addmul(r: &mut Row, o: &Row, c: &BigInt, p: &BigInt) { for (k, v) in o { let e = r.entry(k.clone()).or_default(); *e = emod(&(e.clone() + c * v), p); } r.retain(|_, v| *v != BigInt::from(0)); }
/// the linear consequences (reduced echelon form) and what they leave of the other polynomials
fn closure(ps: &[Poly], kept: &BTreeSet<&str>, p: &BigInt) -> Result<(BTreeMap<(bool, String), Row>, BTreeSet<Poly>), String> {
    let mut rows: BTreeMap<(bool, String), Row> = BTreeMap::new();
    let mut rest: Vec<Poly> = ps.to_vec();
    loop {
        let mut next = vec![];
        let mut grew = false;
        for q in rest {
            let subst = |n: &str| -> Form { let k = key(n, kept); match rows.get(&k) { Some(r) => r.iter().filter(|(x, _)| **x != k).map(|(x, v)| (x.1.clone(), emod(&-v, p))).collect(), None => [(n.to_string(), BigInt::from(1))].into_iter().collect() } };
            let mut t = Poly::new();
            let one: Form = [(String::new(), BigInt::from(1))].into_iter().collect();
            for (m, c) in &q {
                let (a, b) = match m.len() { 0 => (one.clone(), one.clone()), 1 => (subst(&m[0]), one.clone()), _ => (subst(&m[0]), subst(&m[1])) };
                for (k, v) in poly(&a, &b, &Form::new(), p) { let e = t.entry(k).or_default(); *e = emod(&(e.clone() + v * c), p); }
            }
            t.retain(|_, v| *v != BigInt::from(0));
            if t.keys().any(|k| k.len() > 1) { next.push(t); continue; }
            let mut r: Row = t.into_iter().map(|(k, v)| (key(k.first().map_or("", |x| x.as_str()), kept), v)).collect();
            let k = match pivot(&r) { Some(k) => k.clone(), None if r.is_empty() => continue, None => return Err("the constraints contradict each other".into()) };
            let i = inv(&r[&k], p);
            for v in r.values_mut() { *v = emod(&(v.clone() * &i), p); }
            for o in rows.values_mut() { if let Some(c) = o.get(&k).cloned() { addmul(o, &r, &-c, p); } }
            rows.insert(k, r);
            grew = true;
        }
        rest = next;
        if !grew { break; }
    }
    Ok((rows, rest.into_iter().map(|q| monic(q, p)).collect()))
}
fn equivalent(all: &[Poly], file: &[Poly], kept: &BTreeSet<&str>, p: &BigInt) -> Result<(), String> {
    let (mut rows, rest) = closure(all, kept, p)?;
    for q in &rest { for m in q.keys() { for n in m { ensure(kept.contains(n.as_str()), &format!("signal {} was removed but a constraint needs it", n))?; } } }
    rows.retain(|k, _| k.0);
    let (frows, frest) = closure(file, kept, p)?;
    for (k, r) in &rows { ensure(frows.get(k) == Some(r), &format!("the linear constraints of the file do not determine {} as those of the circuit do", k.1))?; }
    ensure(frows.len() == rows.len(), "the file has a linear constraint that the circuit has not")?;
    for q in &rest { ensure(frest.contains(q), &format!("the file has no constraint equivalent to {:?}", q))?; }
    ensure(frest.len() == rest.len(), "the file has a quadratic constraint that the circuit has not")
}
fn main() {
    let mut h = Harness::new("random programs (templates, arrays, buses, subcomponent arrays) with more than two constraints");
    let dir = h.scratch.clone();
    while h.time_left() {
        let g = gen(&mut h.rng);
        let mode = h.rng.us(3);
        let seed = h.rng.us(1 << 30) as u64;
        let d = dir.clone();
        h.case("constraints", format!("--O{}\n{}", mode, g.text()), move || check(&g, mode, &d, seed));
    }
    h.finish();
}
