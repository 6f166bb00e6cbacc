use circom_algebra::algebra::ArithmeticExpression as E;
use circom_algebra::modular_arithmetic as ma;
use harness::alg::*;
use harness::*;
use num_bigint::BigInt;
use num_traits::{One, Zero};
use std::collections::HashMap;

fn deg(e: &E<usize>) -> u32 { match e { E::Number { .. } => 0, E::Signal { .. } | E::Linear { .. } => 1, E::Quadratic { .. } => 2, E::NonQuadratic => 9 } }
fn num(e: &E<usize>) -> Option<BigInt> { if let E::Number { value } = e { Some(value.clone()) } else { None } }
fn ok(name: &str, r: &E<usize>, want: &dyn Fn(&[BigInt]) -> Option<BigInt>, ws: &[Vec<BigInt>], p: &BigInt, must: bool) -> Result<(), String> {
    if matches!(r, E::NonQuadratic) { return if must { Err(format!("{}: declared non quadratic", name)) } else { Ok(()) }; }
    if !canon(r, p) { return Err(format!("{}: coefficients of {} are not field elements", name, show(r))); }
    for w in ws {
        let got = val(r, w, p);
        match want(w) {
            Some(x) => if got.as_ref() != Some(&x) { return Err(format!("{}: result {} evaluates to {:?}, expected {} at {:?}", name, show(r), got.map(|v| v.to_string()), x, w.iter().map(|v| v.to_string()).collect::<Vec<_>>())); },
            None => return Err(format!("{}: an operand is non quadratic, the result {} is not", name, show(r))),
        }
    }
    Ok(())
}
fn check(x: &E<usize>, y: &E<usize>, ws: &[Vec<BigInt>], p: &BigInt) -> Result<bool, String> {
    let v = |e: &E<usize>, w: &[BigInt]| val(e, w, p);
    let (dx, dy) = (deg(x), deg(y));
    let addable = dx.max(dy) <= 2 && dx.min(dy) <= 1;
    ok("add", &E::add(x, y, p), &|w| Some(emod(&(v(x, w)? + v(y, w)?), p)), ws, p, addable)?;
    ok("sub", &E::sub(x, y, p), &|w| Some(emod(&(v(x, w)? - v(y, w)?), p)), ws, p, addable)?;
    ok("mul", &E::mul(x, y, p), &|w| Some(emod(&(v(x, w)? * v(y, w)?), p)), ws, p, dx + dy <= 2)?;
    ok("prefix_sub", &E::prefix_sub(x, p), &|w| Some(emod(&-v(x, w)?, p)), ws, p, dx <= 2)?;
    match (E::div(x, y, p), num(y)) {
        (Err(_), Some(d)) if d.is_zero() => {}
        (Ok(r), Some(d)) if d.is_zero() && dx > 2 => if !matches!(r, E::NonQuadratic) { return Err(format!("div: {}", show(&r))); },
        (Err(_), _) => return Err("div: error for a divisor that is not zero".into()),
        (Ok(r), Some(d)) => {
            if d.is_zero() { return Err("div: division by zero accepted".into()); }
            let i = ma::pow(&d, &(p - BigInt::from(2)), p);
            ok("div", &r, &|w| Some(emod(&(v(x, w)? * &i), p)), ws, p, dx <= 2)?
        }
        (Ok(r), None) => if !matches!(r, E::NonQuadratic) { return Err(format!("div by an expression gives {}", show(&r))); }
    }
    // the remaining operators: constants fold, anything else is non quadratic
    let both = num(x).zip(num(y));
    type F = fn(&BigInt, &BigInt, &BigInt) -> BigInt;
    type G = fn(&E<usize>, &E<usize>, &BigInt) -> E<usize>;
    let ops: Vec<(&str, G, F)> = vec![
        ("bit_or", E::bit_or, ma::bit_or), ("bit_and", E::bit_and, ma::bit_and), ("bit_xor", E::bit_xor, ma::bit_xor),
        ("bool_or", E::bool_or, ma::bool_or), ("bool_and", E::bool_and, ma::bool_and), ("eq", E::eq, ma::eq), ("not_eq", E::not_eq, ma::not_eq),
        ("lesser", E::lesser, ma::lesser), ("lesser_eq", E::lesser_eq, ma::lesser_eq), ("greater", E::greater, ma::greater), ("greater_eq", E::greater_eq, ma::greater_eq),
    ];
    for (n, g, f) in ops {
        let r = g(x, y, p);
        match &both {
            Some((a, b)) => if num(&r) != Some(f(a, b, p)) { return Err(format!("{} on constants gives {}", n, show(&r))); },
            None => if !matches!(r, E::NonQuadratic) { return Err(format!("{} on expressions gives {}", n, show(&r))); },
        }
    }
    type GR = fn(&E<usize>, &E<usize>, &BigInt) -> Result<E<usize>, ma::ArithmeticError>;
    type FR = fn(&BigInt, &BigInt, &BigInt) -> Result<BigInt, ma::ArithmeticError>;
    let ops: Vec<(&str, GR, FR)> = vec![("shift_l", E::shift_l, ma::shift_l), ("shift_r", E::shift_r, ma::shift_r), ("idiv", E::idiv, ma::idiv), ("mod_op", E::mod_op, ma::mod_op)];
    for (n, g, f) in ops {
        let r = g(x, y, p);
        match &both {
            Some((a, b)) => match (r, f(a, b, p)) { (Ok(e), Ok(v)) => if num(&e) != Some(v) { return Err(format!("{} on constants gives {}", n, show(&e))); }, (Err(_), Err(_)) => {}, _ => return Err(format!("{}: error status differs", n)) },
            None => match r { Ok(E::NonQuadratic) => {}, Ok(e) => return Err(format!("{} on expressions gives {}", n, show(&e))), Err(_) => return Err(format!("{} on expressions is an error", n)) },
        }
    }
    let c = E::complement(x, p);
    match num(x) { Some(a) => if num(&c) != Some(ma::complement(&a, p)) { return Err("complement".into()); }, None => if !matches!(c, E::NonQuadratic) { return Err("complement of an expression".into()); } }
    let c = E::not(x, p);
    match num(x) { Some(a) => if num(&c) != Some(ma::not(&a, p)) { return Err("not".into()); }, None => if !matches!(c, E::NonQuadratic) { return Err("not of an expression".into()); } }
    if let Some(b) = E::get_boolean_equivalence(x, p) { if num(x).map(|a| !a.is_zero()) != Some(b) { return Err("boolean value".into()); } } else if num(x).is_some() { return Err("constant without boolean value".into()); }
    // powers: constants, and squares of linear expressions
    let q = E::pow(x, y, p);
    match (&both, num(y)) {
        (Some((a, b)), _) => if num(&q) != Some(ma::pow(a, b, p)) { return Err("pow on constants".into()); },
        (None, Some(e)) if e == BigInt::from(2) => ok("pow", &q, &|w| { let t = v(x, w)?; Some(emod(&(&t * &t), p)) }, ws, p, dx <= 1)?,
        (None, Some(e)) => { let ee = e.clone(); ok("pow", &q, &|w| Some(ma::pow(&v(x, w)?, &ee, p)), ws, p, false)? }
        _ => if !matches!(q, E::NonQuadratic) { return Err("pow with an expression as exponent".into()); },
    }
    match E::transform_expression_to_constraint_form(x.clone(), p) {
        None => if dx <= 2 { return Err("no constraint form".into()); },
        Some(c) => {
            if dx > 2 { return Err("a non quadratic expression has a constraint form".into()); }
            for w in ws { if form(&c, w, p) != v(x, w).unwrap() { return Err(format!("constraint form {} differs from the expression at {:?}", show_c(&c), w)); } }
        }
    }
    Ok(dx <= 2 && dy <= 2 && !(dx == 0 && dy == 0))
}
fn main() {
    let mut h = Harness::new("pairs of symbolic values (constant, signal, linear, quadratic, non quadratic) over small and supported primes, results evaluated at random assignments; non-trivial: not two constants, none non quadratic");
    let mut primes: Vec<BigInt> = PRIMES.iter().map(|x| big(x.1)).collect();
    for q in [7, 11, 13, 101] { primes.push(BigInt::from(q)); }
    while h.time_left() {
        let p = h.rng.pick(&primes).clone();
        let n = 2 + h.rng.us(4);
        let (mut x, mut y) = (expr(&mut h.rng, n, &p), expr(&mut h.rng, n, &p));
        // results of operations as operands, too
        if h.rng.chance(1, 3) { let z = expr(&mut h.rng, n, &p); let t = match h.rng.below(3) { 0 => E::add(&x, &z, &p), 1 => E::sub(&x, &z, &p), _ => E::mul(&x, &z, &p) }; if deg(&t) <= 2 { x = t; } }
        match h.rng.below(14) {
            0 => y = x.clone(),
            1 => y = E::Number { value: BigInt::from(h.rng.below(4)) },
            2 => if let E::Linear { coefficients } = &x { y = E::Linear { coefficients: coefficients.iter().map(|(k, v)| (*k, emod(&-v, &p))).collect::<HashMap<_, _>>() }; },
            _ => {}
        }
        let mut ws: Vec<Vec<BigInt>> = (0..3).map(|_| asg(&mut h.rng, n, &p)).collect();
        ws.push(vec![BigInt::one(); n]);
        h.case("expr-op", format!("p={} x={} y={}", p, show(&x), show(&y)), || check(&x, &y, &ws, &p));
    }
    h.finish();
}
