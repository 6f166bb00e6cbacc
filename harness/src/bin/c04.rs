use circom_algebra::simplification_utils::*;
use harness::alg::*;
use harness::simp::*;
use harness::sys;
use harness::*;
use num_bigint::BigInt;
use std::collections::{HashSet, LinkedList};

struct Case { n: usize, p: u64, cs: Vec<C>, forb: HashSet<usize>, old: bool }
fn full(c: &Case) -> Result<bool, String> {
    let p = c.p;
    let cons: LinkedList<C> = c.cs.iter().cloned().collect();
    let r = full_simplification(Config { field: BigInt::from(p), constraints: cons, forbidden: std::sync::Arc::new(c.forb.clone()), num_signals: c.n - 1, use_old_heuristics: c.old });
    let inp: Vec<Row> = c.cs.iter().map(|x| row(x.c(), p)).collect();
    let mut out: Vec<Row> = vec![];
    let mut gone = HashSet::new();
    for s in &r.substitutions {
        if c.forb.contains(s.from()) { return Err(format!("protected signal {} is eliminated", s.from())); }
        if !gone.insert(*s.from()) { return Err(format!("signal {} is eliminated twice", s.from())); }
        out.push(sub_row(s, p));
    }
    if r.removed.iter().cloned().collect::<HashSet<_>>() != gone || r.removed.len() != gone.len() { return Err("the removed signals are not those substituted".into()); }
    for s in &r.substitutions { for k in s.to().keys() { if gone.contains(k) { return Err(format!("eliminated signal {} occurs in {}", k, show_s(s))); } } }
    for x in &r.constraints {
        if !x.a().is_empty() || !x.b().is_empty() { return Err(format!("residual constraint {} is not linear", show_c(x))); }
        for k in signals(x) { if gone.contains(&k) { return Err(format!("eliminated signal {} occurs in {}", k, show_c(x))); } }
        out.push(row(x.c(), p));
    }
    equivalent(&inp, &out, p)?;
    Ok(!gone.is_empty())
}
fn gen(r: &mut Rng, big: bool) -> Case {
    let p = *r.pick(&[3u64, 5, 7, 101, 18446744069414584321]);
    let top = *r.pick(&[3usize, 8, 40]);
    let m = if big { 350 + r.us(40) } else { 1 + r.us(top) };
    let w = if r.chance(1, 3) { 3 } else { m + m / 2 + 2 };
    let n = 2 + r.us(w);
    let bp = BigInt::from(p);
    // a hidden solution makes most systems consistent
    let sol: Option<Vec<u64>> = if r.chance(3, 4) { Some((0..n).map(|i| if i == 0 { 1 } else { r.below(p) }).collect()) } else { None };
    let mut cs = vec![];
    while cs.len() < m {
        let mut l = rand_lin(r, n, if big { 3 } else { 4 }, p);
        if let Some(w) = &sol {
            l.remove(&0);
            let v = ev(&l, &w.iter().map(|x| BigInt::from(*x)).collect::<Vec<_>>(), &bp);
            l.insert(0, emod(&(-v), &bp));
        }
        let c = linear(l, &bp);
        if c.is_empty() { if !big && r.chance(1, 4) { break; } continue; }
        cs.push(c);
        if cs.len() < m && r.chance(1, 12) { let i = r.us(cs.len()); cs.push(cs[i].clone()); }
    }
    let mut forb: HashSet<usize> = [0].into_iter().collect();
    let k = r.us(n);
    for _ in 0..k / 2 { forb.insert(r.us(n)); }
    Case { n, p, cs, forb, old: r.chance(1, 2) }
}
fn show_case(c: &Case) -> String {
    let mut f: Vec<_> = c.forb.iter().cloned().collect();
    f.sort();
    format!("p={} n={} old={} protected={:?} {}", c.p, c.n, c.old, f, c.cs.iter().map(|x| show_lin(x.c())).collect::<Vec<_>>().join(" ; "))
}
fn main() {
    let mut h = Harness::new("a case is a linear system with protected signals given to full_simplification (oracle: Gaussian elimination), or a whole system given to the simplifier (oracle: full enumeration over a small field); non-trivial when a signal is eliminated");
    let log = format!("{}/subs.json", h.scratch);
    let mut i = 0;
    while h.time_left() {
        i += 1;
        if i % 3 == 0 {
            let (s, d) = sys::gen(&mut h.rng);
            h.case("system", d, || { let r = sys::run(&s, &log)?; sys::same_solutions(&s, &r) });
        } else {
            let mut c = gen(&mut h.rng, i % 400 == 1);
            if c.cs.len() >= 350 { c.old = false; }
            if c.cs.is_empty() { continue; }
            let d = show_case(&c);
            h.case(if c.cs.len() >= 350 { "full-large" } else { "full" }, d, || full(&c));
        }
    }
    h.finish();
}
