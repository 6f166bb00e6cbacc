//! expressions and constraints over usize signals, with an evaluator written from the definition
use crate::{emod, Rng};
use circom_algebra::algebra::{ArithmeticExpression as E, Constraint, Substitution};
use num_bigint::BigInt;
use num_traits::{One, Zero};
use std::collections::HashMap;

pub type Lin = HashMap<usize, BigInt>;
pub fn ev(m: &Lin, w: &[BigInt], p: &BigInt) -> BigInt {
    let mut s = BigInt::zero();
    for (k, v) in m { s += v * &w[*k]; }
    emod(&s, p)
}
pub fn val(e: &E<usize>, w: &[BigInt], p: &BigInt) -> Option<BigInt> {
    Some(match e {
        E::Number { value } => emod(value, p),
        E::Signal { symbol } => w[*symbol].clone(),
        E::Linear { coefficients } => ev(coefficients, w, p),
        E::Quadratic { a, b, c } => emod(&(ev(a, w, p) * ev(b, w, p) + ev(c, w, p)), p),
        E::NonQuadratic => return None,
    })
}
pub fn show_lin(m: &Lin) -> String {
    let mut v: Vec<_> = m.iter().collect();
    v.sort();
    v.iter().map(|(k, c)| format!("{}*s{}", c, k)).collect::<Vec<_>>().join("+")
}
pub fn show(e: &E<usize>) -> String {
    match e {
        E::Number { value } => format!("{}", value),
        E::Signal { symbol } => format!("s{}", symbol),
        E::Linear { coefficients } => format!("({})", show_lin(coefficients)),
        E::Quadratic { a, b, c } => format!("({})*({})+{}", show_lin(a), show_lin(b), show_lin(c)),
        E::NonQuadratic => "NQ".into(),
    }
}
pub fn show_c(c: &Constraint<usize>) -> String { format!("[{}]*[{}]-[{}]", show_lin(c.a()), show_lin(c.b()), show_lin(c.c())) }
pub fn canon_lin(m: &Lin, p: &BigInt) -> bool { m.values().all(|v| v >= &BigInt::zero() && v < p) }
pub fn canon(e: &E<usize>, p: &BigInt) -> bool {
    match e {
        E::Number { value } => value >= &BigInt::zero() && value < p,
        E::Linear { coefficients } => canon_lin(coefficients, p),
        E::Quadratic { a, b, c } => canon_lin(a, p) && canon_lin(b, p) && canon_lin(c, p),
        _ => true,
    }
}
pub fn coef(r: &mut Rng, p: &BigInt) -> BigInt { if r.chance(1, 2) { r.small(p) } else { r.elem(p) } }
/// n signals, 0 is the constant wire
pub fn lin(r: &mut Rng, n: usize, p: &BigInt) -> Lin {
    let mut m = Lin::new();
    m.insert(0, coef(r, p));
    for _ in 0..r.us(4) { m.insert(1 + r.us(n - 1), coef(r, p)); }
    m
}
pub fn expr(r: &mut Rng, n: usize, p: &BigInt) -> E<usize> {
    match r.below(10) {
        0 | 1 => E::Number { value: coef(r, p) },
        2 | 3 => E::Signal { symbol: 1 + r.us(n - 1) },
        4 | 5 | 6 => E::Linear { coefficients: lin(r, n, p) },
        7 | 8 => E::Quadratic { a: lin(r, n, p), b: lin(r, n, p), c: lin(r, n, p) },
        _ => E::NonQuadratic,
    }
}
pub fn asg(r: &mut Rng, n: usize, p: &BigInt) -> Vec<BigInt> {
    let mut w = vec![BigInt::one()];
    for _ in 1..n { w.push(if r.chance(1, 3) { r.small(p) } else { r.elem(p) }); }
    w
}
pub fn form(c: &Constraint<usize>, w: &[BigInt], p: &BigInt) -> BigInt {
    emod(&(ev(c.a(), w, p) * ev(c.b(), w, p) - ev(c.c(), w, p)), p)
}
pub fn constraint(r: &mut Rng, n: usize, p: &BigInt) -> Constraint<usize> {
    let e = loop { let e = expr(r, n, p); if !matches!(e, E::NonQuadratic) { break e; } };
    E::transform_expression_to_constraint_form(e, p).unwrap()
}
pub fn sub(r: &mut Rng, n: usize, p: &BigInt) -> Substitution<usize> {
    loop {
        let f = 1 + r.us(n - 1);
        let mut m = lin(r, n, p);
        m.remove(&f);
        if r.chance(1, 4) { m.remove(&0); }
        if let Some(s) = Substitution::new(f, E::Linear { coefficients: m }) { return s; }
    }
}
pub fn show_s(s: &Substitution<usize>) -> String { format!("s{} := {}", s.from(), show_lin(s.to())) }
