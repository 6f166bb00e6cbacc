// Environments against a reference stack of maps.
use harness::*;
use program_structure::environment::CircomEnvironment;
use std::collections::BTreeMap;
type Env = CircomEnvironment<u64, u64, u64, u64>;
type M = BTreeMap<&'static str, u64>;
const N: [&str; 4] = ["a", "b", "c", "d"];
#[derive(Clone, PartialEq, Debug)]
struct Ref { vars: Vec<M>, side: [M; 7] } // side: inputs, outputs, intermediates, 3 x bus, components
impl Ref {
    fn new() -> Ref { Ref { vars: vec![M::new()], side: Default::default() } }
    fn var(&self, n: &str) -> Option<u64> { self.vars.iter().rev().find_map(|b| b.get(n).copied()) }
    fn three(&self, k: usize, n: &str) -> Option<u64> { (k..k + 3).find_map(|i| self.side[i].get(n).copied()) }
}
fn using(a: u64, b: u64) -> u64 { a.wrapping_mul(31).wrapping_add(b).wrapping_add(7) }
#[derive(Clone, Debug)]
enum Op { Push, Pop, Var(usize, u64), SetVar(usize, u64), DelVar(usize), Side(usize, usize, u64), SetSide(usize, usize, u64), DelSide(usize, usize), Fork(Vec<Op>, Vec<Op>) }
fn gen(r: &mut Rng, len: usize, depth: usize, v: &mut u64) -> Vec<Op> {
    let mut open = 0;
    let mut ops = vec![];
    for _ in 0..len {
        *v += 1;
        let (n, s) = (r.us(4), r.us(7));
        ops.push(match r.us(13) {
            0 | 1 => { open += 1; Op::Push }
            2 if open > 0 => { open -= 1; Op::Pop }
            3 | 4 | 5 => Op::Var(n, *v),
            6 => Op::SetVar(n, *v),
            7 => Op::DelVar(n),
            8 => Op::Side(s, n, *v),
            9 => Op::SetSide(s, n, *v),
            10 => Op::DelSide(s, n),
            11 if depth > 0 => { let (a, b) = (1 + r.us(6), r.us(6)); Op::Fork(gen(r, a, depth - 1, v), gen(r, b, depth - 1, v)) }
            _ => Op::Var(n, *v),
        });
    }
    for _ in 0..open { ops.push(Op::Pop) }
    ops
}
fn same(e: &mut Env, m: &Ref) -> Result<(), String> {
    let bad = |w: &str, n: &str, a: String, b: String| Err(format!("{} of {} gives {} and should give {}", w, n, a, b));
    for n in N {
        let w = m.var(n);
        macro_rules! ck { ($what:expr, $got:expr, $want:expr) => { let (g, w) = ($got, $want); if g != w { return bad($what, n, format!("{:?}", g), format!("{:?}", w)); } }; }
        ck!("get_variable", e.get_variable(n).copied(), w);
        ck!("has_variable", e.has_variable(n), w.is_some());
        ck!("get_variable_res", e.get_variable_res(n).ok().copied(), w);
        ck!("get_mut_variable", e.get_mut_variable(n).map(|x| *x), w);
        ck!("get_mut_variable_mut", e.get_mut_variable_mut(n).ok().map(|x| *x), w);
        if w.is_some() { ck!("get_variable_or_break", Some(*e.get_variable_or_break(n, "", 0)), w); ck!("get_mut_variable_or_break", Some(*e.get_mut_variable_or_break(n, "", 0)), w); }
        ck!("get_input", e.get_input(n).copied(), m.side[0].get(n).copied());
        ck!("get_output", e.get_output(n).copied(), m.side[1].get(n).copied());
        ck!("get_intermediate", e.get_intermediate(n).copied(), m.side[2].get(n).copied());
        ck!("get_input_bus", e.get_input_bus(n).copied(), m.side[3].get(n).copied());
        ck!("get_output_bus", e.get_output_bus(n).copied(), m.side[4].get(n).copied());
        ck!("get_intermediate_bus", e.get_intermediate_bus(n).copied(), m.side[5].get(n).copied());
        ck!("get_component", e.get_component(n).copied(), m.side[6].get(n).copied());
        ck!("get_component_res", e.get_component_res(n).ok().copied(), m.side[6].get(n).copied());
        ck!("get_signal", e.get_signal(n).copied(), m.three(0, n));
        ck!("get_signal_res", e.get_signal_res(n).ok().copied(), m.three(0, n));
        ck!("get_mut_signal", e.get_mut_signal(n).map(|x| *x), m.three(0, n));
        ck!("get_mut_signal_res", e.get_mut_signal_res(n).ok().map(|x| *x), m.three(0, n));
        ck!("get_bus", e.get_bus(n).copied(), m.three(3, n));
        ck!("get_bus_res", e.get_bus_res(n).ok().copied(), m.three(3, n));
        ck!("get_mut_bus", e.get_mut_bus(n).map(|x| *x), m.three(3, n));
        ck!("get_mut_bus_res", e.get_mut_bus_res(n).ok().map(|x| *x), m.three(3, n));
        ck!("has_signal", e.has_signal(n), m.three(0, n).is_some());
        ck!("has_bus", e.has_bus(n), m.three(3, n).is_some());
        if m.three(0, n).is_some() { ck!("get_signal_or_break", Some(*e.get_signal_or_break(n, "", 0)), m.three(0, n)); ck!("get_mut_signal_or_break", Some(*e.get_mut_signal_or_break(n, "", 0)), m.three(0, n)); }
        if m.three(3, n).is_some() { ck!("get_bus_or_break", Some(*e.get_bus_or_break(n, "", 0)), m.three(3, n)); ck!("get_mut_bus_or_break", Some(*e.get_mut_bus_or_break(n, "", 0)), m.three(3, n)); }
        ck!("has_symbol", e.has_symbol(n), w.is_some() || m.three(0, n).is_some() || m.three(3, n).is_some() || m.side[6].contains_key(n));
    }
    Ok(())
}
fn run(e: &mut Env, m: &mut Ref, ops: &[Op]) -> Result<(), String> {
    for op in ops {
        match op {
            Op::Push => { e.add_variable_block(); m.vars.push(M::new()); }
            Op::Pop => { e.remove_variable_block(); m.vars.pop(); }
            Op::Var(n, v) => { e.add_variable(N[*n], *v); m.vars.last_mut().unwrap().insert(N[*n], *v); }
            Op::SetVar(n, v) => {
                if let Some(x) = e.get_mut_variable(N[*n]) { *x = *v; }
                for b in m.vars.iter_mut().rev() { if b.contains_key(N[*n]) { b.insert(N[*n], *v); break; } }
            }
            Op::DelVar(n) => { e.remove_variable(N[*n]); for b in m.vars.iter_mut().rev() { if b.remove(N[*n]).is_some() { break; } } }
            Op::Side(s, n, v) => {
                let x = N[*n];
                match s { 0 => e.add_input(x, *v), 1 => e.add_output(x, *v), 2 => e.add_intermediate(x, *v), 3 => e.add_input_bus(x, *v), 4 => e.add_output_bus(x, *v), 5 => e.add_intermediate_bus(x, *v), _ => e.add_component(x, *v) }
                m.side[*s].insert(x, *v);
            }
            Op::SetSide(s, n, v) => {
                let x = N[*n];
                let q = match s { 0 => e.get_mut_input(x), 1 => e.get_mut_output(x), 2 => e.get_mut_intermediate(x), 3 => e.get_mut_input_bus(x), 4 => e.get_mut_output_bus(x), 5 => e.get_mut_intermediate_bus(x), _ => e.get_mut_component(x) };
                if let Some(q) = q { *q = *v; }
                if let Some(q) = m.side[*s].get_mut(x) { *q = *v; }
            }
            Op::DelSide(s, n) => {
                let x = N[*n];
                match s { 0 => e.remove_input(x), 1 => e.remove_output(x), 2 => e.remove_intermediate(x), 3 => e.remove_input_bus(x), 4 => e.remove_output_bus(x), 5 => e.remove_intermediate_bus(x), _ => e.remove_component(x) }
                m.side[*s].remove(x);
            }
            Op::Fork(a, b) => {
                let (mut e1, mut e2, mut m1, mut m2) = (e.clone(), e.clone(), m.clone(), m.clone());
                run(&mut e1, &mut m1, a)?;
                run(&mut e2, &mut m2, b)?;
                *e = Env::merge(e1, e2, using);
                for (l, r) in m1.vars.iter_mut().zip(&m2.vars) {
                    for (k, v) in r { let w = match l.get(k) { Some(x) => using(*x, *v), None => *v }; l.insert(k, w); }
                }
                for i in 0..7 { for (k, v) in &m2.side[i] { m1.side[i].insert(k, *v); } }
                *m = m1;
            }
        }
        same(e, m)?;
    }
    Ok(())
}
fn main() {
    let mut h = Harness::new("a case is a bracketed sequence of environment operations, with the joins of branches; non-trivial when it opens a block");
    loop {
        let len = 1 + h.rng.us(30);
        let mut v = 0;
        let ops = gen(&mut h.rng, len, 2, &mut v);
        let d = format!("{:?}", ops);
        h.case("environment-history", d, || {
            let mut e = Env::new();
            let mut m = Ref::new();
            same(&mut e, &m)?;
            run(&mut e, &mut m, &ops)?;
            Ok(ops.iter().any(|o| matches!(o, Op::Push)))
        });
        if !h.time_left() { break; }
    }
    h.finish();
}
