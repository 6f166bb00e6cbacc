use circom_algebra::algebra::{ArithmeticExpression as E, Constraint, Substitution};
use harness::alg::*;
use harness::*;
use num_bigint::BigInt;
use num_traits::{One, Zero};
use std::collections::{BTreeMap, HashMap, HashSet};

fn strs(w: &[BigInt]) -> String { w.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",") }
fn occurs(c: &Constraint<usize>, s: usize) -> bool { c.a().contains_key(&s) || c.b().contains_key(&s) || c.c().contains_key(&s) }
fn sigs(c: &Constraint<usize>) -> HashSet<usize> { c.a().keys().chain(c.b().keys()).chain(c.c().keys()).cloned().filter(|x| *x != 0).collect() }
fn subst(c: &Constraint<usize>, s: &Substitution<usize>, t: &Substitution<usize>, ws: &[Vec<BigInt>], p: &BigInt) -> Result<bool, String> {
    let mut d = c.clone();
    Constraint::apply_substitution(&mut d, s, p);
    let mut f = d.clone();
    Constraint::fix_constraint(&mut f, p);
    let mut z = d.clone();
    Constraint::remove_zero_value_coefficients(&mut z);
    let mut t2 = t.clone();
    Substitution::apply_substitution(&mut t2, s, p);
    if occurs(&d, *s.from()) { return Err("the replaced signal still occurs in the constraint".into()); }
    if t2.to().contains_key(s.from()) { return Err("the replaced signal still occurs in the substitution".into()); }
    if t2.from() != t.from() { return Err("substituting changed the eliminated signal".into()); }
    for (n, m) in [("a", f.a()), ("b", f.b()), ("c", f.c()), ("a", z.a()), ("b", z.b()), ("c", z.c())] {
        if m.values().any(|v| v.is_zero()) { return Err(format!("normal form keeps a zero coefficient in {}", n)); }
        if !canon_lin(m, p) { return Err(format!("normal form: coefficient of {} outside the field", n)); }
    }
    if f.a().is_empty() != f.b().is_empty() { return Err("normal form: only one of A, B empty".into()); }
    for w in ws {
        // an assignment that satisfies the definition
        let mut w = w.clone();
        w[*s.from()] = ev(s.to(), &w, p);
        if form(&d, &w, p).is_zero() != form(c, &w, p).is_zero() { return Err(format!("substituted constraint {} differs at {}", show_c(&d), strs(&w))); }
        if ev(t2.to(), &w, p) != ev(t.to(), &w, p) { return Err(format!("substituted substitution {} differs at {}", show_s(&t2), strs(&w))); }
        if form(&f, &w, p) != form(&d, &w, p) { return Err(format!("normalised constraint {} differs at {}", show_c(&f), strs(&w))); }
        if form(&z, &w, p) != form(&d, &w, p) { return Err("dropping zero coefficients changed the constraint".into()); }
        let mut v = w.clone();
        v[*s.from()] = emod(&(&v[*s.from()] + 1), p);
        let k = Substitution::substitution_into_constraint(s.clone(), p);
        if !form(&k, &w, p).is_zero() || form(&k, &v, p).is_zero() { return Err(format!("substitution as constraint {}", show_c(&k))); }
        let e = Substitution::map_into_arith_expr(s.clone(), p);
        if !val(&e, &w, p).map_or(false, |x| x.is_zero()) || val(&e, &v, p).map_or(true, |x| x.is_zero()) { return Err("substitution as expression".into()); }
        let (fr, to) = Substitution::decompose(s.clone());
        if fr != *s.from() || val(&to, &w, p) != Some(ev(s.to(), &w, p)) { return Err("decompose".into()); }
        let mut zs = t2.clone();
        Substitution::rmv_zero_coefficients(&mut zs);
        if ev(zs.to(), &w, p) != ev(t2.to(), &w, p) || zs.from() != t2.from() { return Err("dropping zero coefficients of a substitution".into()); }
    }
    if c.take_cloned_signals() != sigs(c) || c.take_signals().into_iter().cloned().collect::<HashSet<_>>() != sigs(c)
        || c.take_cloned_signals_ordered().into_iter().collect::<HashSet<_>>() != sigs(c) { return Err("signals of a constraint".into()); }
    let ts: HashSet<usize> = t.to().keys().cloned().filter(|x| *x != 0).collect();
    if t.take_cloned_signals() != ts || t.take_signals().into_iter().cloned().collect::<HashSet<_>>() != ts
        || t.take_cloned_signals_ordered().into_iter().collect::<HashSet<_>>() != ts { return Err("signals of a substitution".into()); }
    Ok(c.a().contains_key(s.from()) || c.c().contains_key(s.from()))
}
fn subst_expr(e: &E<usize>, s: &Substitution<usize>, ws: &[Vec<BigInt>], p: &BigInt) -> Result<bool, String> {
    let mut d = e.clone();
    E::apply_substitutions(&mut d, s, p);
    let has = |m: &Lin| m.contains_key(s.from());
    let still = match &d { E::Signal { symbol } => symbol == s.from(), E::Linear { coefficients } => has(coefficients), E::Quadratic { a, b, c } => has(a) || has(b) || has(c), _ => false };
    if still { return Err("the replaced signal still occurs in the expression".into()); }
    for w in ws {
        let mut w = w.clone();
        w[*s.from()] = ev(s.to(), &w, p);
        if val(&d, &w, p) != val(e, &w, p) { return Err(format!("substituted expression {} differs at {}", show(&d), strs(&w))); }
    }
    Ok(true)
}
fn solve(m: &Lin, key: usize, ws: &[Vec<BigInt>], p: &BigInt) -> Result<bool, String> {
    let mut c = E::transform_expression_to_constraint_form(E::Linear { coefficients: m.clone() }, p).unwrap();
    Constraint::fix_constraint(&mut c, p);
    if !Constraint::is_linear(&c) { return Err("a linear expression is not linear after normalisation".into()); }
    if !c.c().contains_key(&key) { return Ok(false); }
    let s = Constraint::clear_signal_from_linear(c.clone(), &key, p);
    let (d, t) = Constraint::clear_signal_from_linear_not_normalized(c.clone(), &key, p);
    if *s.from() != key || *t.from() != key || s.to().contains_key(&key) || t.to().contains_key(&key) { return Err("the solved signal occurs on the right".into()); }
    if s.to().values().any(|v| v.is_zero()) || !canon_lin(s.to(), p) || !canon_lin(t.to(), p) { return Err("solved form: coefficients".into()); }
    for w in ws {
        let mut w = w.clone();
        for hit in [true, false] {
            if hit { w[key] = ev(s.to(), &w, p); } else { w[key] = emod(&(&w[key] + 1), p); }
            if form(&c, &w, p).is_zero() != hit { return Err(format!("solving {} for s{} gives {}", show_c(&c), key, show_s(&s))); }
            if (emod(&(&d * &w[key]), p) == ev(t.to(), &w, p)) != hit { return Err(format!("solving {} for {} s{} gives {}", show_c(&c), d, key, show_s(&t))); }
        }
    }
    Ok(true)
}
fn classify(m: &Lin, p: &BigInt) -> Result<bool, String> {
    let mut c = E::transform_expression_to_constraint_form(E::Linear { coefficients: m.clone() }, p).unwrap();
    Constraint::fix_constraint(&mut c, p);
    let k: Vec<(usize, BigInt)> = c.c().iter().map(|(a, b)| (*a, b.clone())).collect();
    let sig: Vec<_> = k.iter().filter(|x| x.0 != 0).collect();
    let eq = k.len() == 2 && sig.len() == 2 && emod(&(&sig[0].1 + &sig[1].1), p).is_zero();
    if c.is_equality(p) != eq { return Err(format!("is_equality of {} is {}", show_c(&c), !eq)); }
    let cq = sig.len() == 1;
    if c.is_constant_equality() != cq { return Err(format!("is_constant_equality of {} is {}", show_c(&c), !cq)); }
    if c.is_empty() != k.is_empty() { return Err("is_empty".into()); }
    Ok(eq || cq)
}
fn rename(c: &Constraint<usize>, s: &Substitution<usize>, off: usize, map: &BTreeMap<usize, usize>, w: &[BigInt], p: &BigInt) -> Result<bool, String> {
    let n = w.len();
    // offset
    let mut wo = vec![BigInt::zero(); n + off];
    wo[0] = BigInt::one();
    for i in 1..n { wo[i + off] = w[i].clone(); }
    if form(&c.apply_offset(off), &wo, p) != form(c, w, p) { return Err(format!("offset {} of {}", off, show_c(c))); }
    let so = s.apply_offset(off);
    if *so.from() != s.from() + off || ev(so.to(), &wo, p) != ev(s.to(), w, p) { return Err("offset of a substitution".into()); }
    // renumbering
    let hm: HashMap<usize, usize> = map.iter().map(|(a, b)| (*a, *b)).collect();
    let mut wm = vec![BigInt::zero(); 200];
    wm[0] = BigInt::one();
    for (a, b) in map { wm[*b] = w[*a].clone(); }
    for d in [Constraint::apply_correspondence(c, &hm), Constraint::apply_correspondence_and_drop(c.clone(), &hm)] {
        if form(&d, &wm, p) != form(c, w, p) || d.a().len() != c.a().len() || d.b().len() != c.b().len() || d.c().len() != c.c().len() { return Err(format!("renumbering of {} gives {}", show_c(c), show_c(&d))); }
    }
    let sm = Substitution::apply_correspondence(s, &hm);
    if *sm.from() != hm[s.from()] || ev(sm.to(), &wm, p) != ev(s.to(), w, p) { return Err("renumbering of a substitution".into()); }
    let v: Vec<usize> = (0..n).map(|i| if i == 0 { 0 } else { hm[&i] }).collect();
    let d = c.apply_witness(&v);
    if form(&d, &wm, p) != form(c, w, p) { return Err("witness renumbering".into()); }
    Ok(true)
}
fn main() {
    let mut h = Harness::new("constraints, substitutions, linear forms and renumberings over small and supported primes, evaluated at random assignments; non-trivial: the transformation has something to do");
    let mut primes: Vec<BigInt> = PRIMES.iter().map(|x| big(x.1)).collect();
    for q in [7, 11, 13, 101] { primes.push(BigInt::from(q)); }
    while h.time_left() {
        let p = h.rng.pick(&primes).clone();
        let n = 3 + h.rng.us(4);
        let c = constraint(&mut h.rng, n, &p);
        let s = sub(&mut h.rng, n, &p);
        let t = loop { let t = sub(&mut h.rng, n, &p); if t.from() != s.from() { break t; } };
        let ws: Vec<Vec<BigInt>> = (0..3).map(|_| asg(&mut h.rng, n, &p)).collect();
        h.case("substitute", format!("p={} c={} s={} t={}", p, show_c(&c), show_s(&s), show_s(&t)), || subst(&c, &s, &t, &ws, &p));
        let x = expr(&mut h.rng, n, &p);
        h.case("substitute-expression", format!("p={} e={} s={}", p, show(&x), show_s(&s)), || subst_expr(&x, &s, &ws, &p));
        // constant factors, zero coefficients
        let m = lin(&mut h.rng, n, &p);
        let k = coef(&mut h.rng, &p);
        let kz: Lin = [(0, k.clone()), (1, BigInt::zero())].into_iter().collect();
        let q = if h.rng.chance(1, 2) { E::Quadratic { a: kz, b: m.clone(), c: lin(&mut h.rng, n, &p) } } else { E::Quadratic { a: m.clone(), b: kz, c: lin(&mut h.rng, n, &p) } };
        let cq = E::transform_expression_to_constraint_form(q, &p).unwrap();
        h.case("substitute", format!("p={} c={} s={} t={}", p, show_c(&cq), show_s(&s), show_s(&t)), || subst(&cq, &s, &t, &ws, &p));
        let key = 1 + h.rng.us(n - 1);
        h.case("solve", format!("p={} m={} key={}", p, show_lin(&m), key), || solve(&m, key, &ws, &p));
        let mut e = Lin::new();
        e.insert(0, if h.rng.chance(1, 2) { BigInt::zero() } else { coef(&mut h.rng, &p) });
        let k = coef(&mut h.rng, &p);
        e.insert(1, k.clone());
        if h.rng.chance(2, 3) { e.insert(2, if h.rng.chance(1, 2) { emod(&-&k, &p) } else { coef(&mut h.rng, &p) }); }
        h.case("classify", format!("p={} m={}", p, show_lin(&e)), || classify(&e, &p));
        let mut tg: Vec<usize> = (1..30).collect();
        h.rng.shuffle(&mut tg);
        let map: BTreeMap<usize, usize> = (1..n).map(|i| (i, tg[i])).collect();
        let off = h.rng.us(5);
        h.case("rename", format!("p={} c={} s={} offset={} map={:?}", p, show_c(&c), show_s(&s), off, map), || rename(&c, &s, off, &map, &ws[0], &p));
    }
    h.finish();
}
