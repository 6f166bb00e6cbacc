use circom_algebra::modular_arithmetic as ma;
use harness::*;
use num_bigint::BigInt;
use num_traits::{One, ToPrimitive, Zero};

fn bl(p: &BigInt) -> usize { let mut n = 0; let mut x = p.clone(); while !x.is_zero() { x = x / BigInt::from(2); n += 1; } n }
fn sgn(x: &BigInt, p: &BigInt) -> BigInt { if x > &(p / BigInt::from(2)) { x - p } else { x.clone() } }
fn b(x: bool) -> BigInt { BigInt::from(if x { 1 } else { 0 }) }
fn p2(k: usize) -> BigInt { num_traits::pow(BigInt::from(2), k) }
fn shr(x: &BigInt, k: &BigInt, p: &BigInt) -> BigInt {
    if k <= &(p / BigInt::from(2)) {
        match k.to_usize() { Some(k) if k <= bl(p) => x / p2(k), _ => BigInt::zero() }
    } else { shl(x, &(p - k), p) }
}
fn shl(x: &BigInt, k: &BigInt, p: &BigInt) -> BigInt {
    if k <= &(p / BigInt::from(2)) {
        match k.to_usize() { Some(k) if k <= bl(p) => emod(&((x * p2(k)) % p2(bl(p))), p), _ => BigInt::zero() }
    } else { shr(x, &(p - k), p) }
}
fn bitop(x: &BigInt, y: &BigInt, f: fn(bool, bool) -> bool) -> BigInt {
    let (mut x, mut y, mut r, mut w) = (x.clone(), y.clone(), BigInt::zero(), BigInt::one());
    let two = BigInt::from(2);
    while !x.is_zero() || !y.is_zero() {
        if f(&x % &two == BigInt::one(), &y % &two == BigInt::one()) { r += &w; }
        w = w * 2; x = x / &two; y = y / &two;
    }
    r
}
fn powm(b: &BigInt, e: &BigInt, p: &BigInt) -> BigInt {
    let (mut r, mut b, mut e) = (emod(&BigInt::one(), p), emod(b, p), e.clone());
    let two = BigInt::from(2);
    while !e.is_zero() { if &e % &two == BigInt::one() { r = emod(&(&r * &b), p); } b = emod(&(&b * &b), p); e = e / &two; }
    r
}
fn eqq(name: &str, got: &BigInt, want: &BigInt) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{}: got {}, the definition gives {}", name, got, want)) }
}
fn check(x: &BigInt, y: &BigInt, p: &BigInt) -> Result<bool, String> {
    let z = BigInt::zero();
    eqq("add", &ma::add(x, y, p), &emod(&(x + y), p))?;
    eqq("mul", &ma::mul(x, y, p), &emod(&(x * y), p))?;
    eqq("sub", &ma::sub(x, y, p), &emod(&(x - y), p))?;
    eqq("prefix_sub", &ma::prefix_sub(x, p), &emod(&(-x), p))?;
    match ma::div(x, y, p) {
        Ok(q) => { if y == &z || q < z || &q >= p || emod(&(&q * y), p) != *x { return Err(format!("div: got {}", q)); } }
        Err(_) => if y != &z { return Err("div: error for an invertible divisor".into()); }
    }
    match ma::idiv(x, y, p) {
        Ok(q) => { if y == &z { return Err("idiv by zero accepted".into()); } eqq("idiv", &q, &(x / y))? }
        Err(_) => if y != &z { return Err("idiv: error for a non-zero divisor".into()); }
    }
    match ma::mod_op(x, y, p) {
        Ok(q) => { if y == &z { return Err("mod by zero accepted".into()); } eqq("mod_op", &q, &(x % y))? }
        Err(_) => if y != &z { return Err("mod_op: error for a non-zero divisor".into()); }
    }
    eqq("pow", &ma::pow(x, y, p), &powm(x, y, p))?;
    eqq("complement", &ma::complement(x, p), &emod(&(p2(bl(p)) - 1 - x), p))?;
    match ma::shift_l(x, y, p) { Ok(r) => eqq("shift_l", &r, &shl(x, y, p))?, Err(_) => return Err("shift_l: error".into()) }
    match ma::shift_r(x, y, p) { Ok(r) => eqq("shift_r", &r, &shr(x, y, p))?, Err(_) => return Err("shift_r: error".into()) }
    eqq("bit_or", &ma::bit_or(x, y, p), &emod(&bitop(x, y, |a, b| a || b), p))?;
    eqq("bit_and", &ma::bit_and(x, y, p), &emod(&bitop(x, y, |a, b| a && b), p))?;
    eqq("bit_xor", &ma::bit_xor(x, y, p), &emod(&bitop(x, y, |a, b| a != b), p))?;
    let (sx, sy) = (sgn(x, p), sgn(y, p));
    eqq("not", &ma::not(x, p), &b(x == &z))?;
    eqq("bool_or", &ma::bool_or(x, y, p), &b(x != &z || y != &z))?;
    eqq("bool_and", &ma::bool_and(x, y, p), &b(x != &z && y != &z))?;
    eqq("eq", &ma::eq(x, y, p), &b(x == y))?;
    eqq("not_eq", &ma::not_eq(x, y, p), &b(x != y))?;
    eqq("lesser", &ma::lesser(x, y, p), &b(sx < sy))?;
    eqq("lesser_eq", &ma::lesser_eq(x, y, p), &b(sx <= sy))?;
    eqq("greater", &ma::greater(x, y, p), &b(sx > sy))?;
    eqq("greater_eq", &ma::greater_eq(x, y, p), &b(sx >= sy))?;
    if ma::as_bool(x, p) != (x != &z) { return Err("as_bool".into()); }
    Ok(x != &z || y != &z)
}
fn check_minv(v: &Vec<BigInt>, p: &BigInt) -> Result<bool, String> {
    let r = ma::multi_inv(v, p);
    if r.len() < v.len() { return Err("multi_inv: too few results".into()); }
    for i in 0..v.len() {
        if emod(&(&r[i] * &v[i]), p) != BigInt::one() || r[i] < BigInt::zero() || &r[i] >= p { return Err(format!("multi_inv: result {} is not the inverse of element {}", r[i], i)); }
    }
    Ok(!v.is_empty())
}
fn main() {
    let mut h = Harness::new("operand pairs over a prime field: every pair for small primes, edge-biased random pairs for the supported primes; non-trivial: not both operands zero");
    for p in [7u32, 11, 13, 17, 19, 23, 29, 31, 37, 61, 67, 127, 131] {
        let p = BigInt::from(p);
        let n = p.to_usize().unwrap();
        for x in 0..n { for y in 0..n {
            if !h.frac(0.5) { break; }
            let (x, y) = (BigInt::from(x), BigInt::from(y));
            h.case("field-op", format!("p={} x={} y={}", p, x, y), || check(&x, &y, &p));
        } }
    }
    let primes: Vec<BigInt> = PRIMES.iter().map(|x| big(x.1)).collect();
    while h.time_left() {
        let p = h.rng.pick(&primes).clone();
        let x = h.rng.elem(&p);
        let y = match h.rng.below(8) { 0 => x.clone(), 1 => emod(&(-&x), &p), 2 => BigInt::from(h.rng.below(300)), 3 => &p - BigInt::from(1 + h.rng.below(300)), _ => h.rng.elem(&p) };
        h.case("field-op", format!("p={} x={} y={}", p, x, y), || check(&x, &y, &p));
        if h.rng.chance(1, 8) {
            let n = h.rng.us(6);
            let v: Vec<BigInt> = (0..n).map(|_| { let e = h.rng.elem(&p); if e.is_zero() { BigInt::one() } else { e } }).collect();
            h.case("multi_inv", format!("p={} v={:?}", p, v), || check_minv(&v, &p));
        }
    }
    h.finish();
}
