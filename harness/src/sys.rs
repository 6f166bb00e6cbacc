//! whole constraint systems through the public simplifier
use circom_algebra::algebra::{ArithmeticExpression as E, Constraint};
use constraint_list::*;
use crate::alg::*;
use crate::simp::*;
use crate::*;
use num_bigint::BigInt;
use std::collections::{HashMap, HashSet, LinkedList};

pub struct Sys { pub n: usize, pub nodes: Vec<(usize, usize, Vec<C>)>, pub forb: HashSet<usize>, pub p: u64, pub s: bool, pub old: bool, pub rounds: usize }
pub struct Run { pub list: ConstraintList, pub all: Vec<C>, pub out: Vec<C>, pub eliminated: Vec<usize> }
fn gen_c(r: &mut Rng, lo: usize, hi: usize, p: u64) -> C {
    let bp = BigInt::from(p);
    let n = hi - lo + 1;
    let sh = |m: Lin| -> Lin { m.into_iter().map(|(k, v)| (if k == 0 { 0 } else { k + lo - 1 }, v)).collect() };
    let c = match r.below(8) {
        0 => { let mut m = Lin::new(); m.insert(1 + r.us(n - 1), BigInt::from(1)); m.insert(1 + r.us(n - 1), BigInt::from(p - 1)); linear(m, &bp) }
        1 => { let mut m = Lin::new(); m.insert(1 + r.us(n - 1), BigInt::from(1 + r.below(p - 1))); if r.chance(1, 2) { m.insert(0, BigInt::from(r.below(p))); } linear(m, &bp) }
        2 | 3 => linear(rand_lin(r, n, 3, p), &bp),
        _ => {
            let f = |r: &mut Rng| { let mut m = rand_lin(r, n, 2, p); m.entry(0).or_insert(BigInt::from(0)); m };
            let (a, b, c) = (f(r), f(r), f(r));
            let mut c = E::transform_expression_to_constraint_form(E::Quadratic { a, b, c }, &bp).unwrap();
            Constraint::fix_constraint(&mut c, &bp);
            c
        }
    };
    let m: HashMap<usize, usize> = (1..n).map(|k| (k, k + lo - 1)).chain([(0, 0)]).collect();
    let _ = &sh;
    Constraint::apply_correspondence(&c, &m)
}
pub fn run(s: &Sys, log: &str) -> Result<Run, String> {
    let p = s.p;
    let bp = BigInt::from(p);
    let (mut lin, mut eqs, mut ceq) = (LinkedList::new(), LinkedList::new(), LinkedList::new());
    let mut nodes = vec![];
    let mut adjacency = vec![];
    let mut all = vec![];
    for (i, (lo, hi, cs)) in s.nodes.iter().enumerate() {
        // node numbering starts at 1 inside each node
        let off = lo - 1;
        let mut non_linear = LinkedList::new();
        for c in cs {
            all.push(c.clone());
            if Constraint::is_constant_equality(c) { ceq.push_back(c.clone()); }
            else if Constraint::is_equality(c, &bp) { eqs.push_back(c.clone()); }
            else if Constraint::is_linear(c) { lin.push_back(c.clone()); }
            else {
                let m: HashMap<usize, usize> = (*lo..*hi).map(|k| (k, k - off)).chain([(0, 0)]).collect();
                non_linear.push_back(Constraint::apply_correspondence(c, &m));
            }
        }
        nodes.push(EncodingNode { id: i, name: format!("n{}", i), parameters: vec![], signals: (*lo..*hi).map(|k| SignalInfo { name: format!("s{}", k), id: k - off }).collect(),
            ordered_signals: vec![], non_linear, is_custom_gate: false });
        adjacency.push(vec![]);
    }
    for i in 1..s.nodes.len() { adjacency[0].push(EncodingEdge { goes_to: i, path: format!("c{}", i), offset: s.nodes[i].0 - 1 }); }
    let smp = Simplifier {
        field: bp.clone(), dag_encoding: DAGEncoding { init: 0, no_constraints: 0, nodes, adjacency }, no_public_inputs: 0, no_public_outputs: 0, no_private_inputs: 0,
        forbidden: s.forb.clone(), cons_equalities: ceq, equalities: eqs, linear: lin, max_signal: s.n, no_rounds: s.rounds, parallel_flag: false, flag_s: s.s,
        flag_old_heuristics: s.old, port_substitution: true, json_substitutions: log.to_string(),
    };
    let list = smp.simplify_constraints();
    let out: Vec<C> = list.constraints.get_ids().into_iter().map(|i| list.constraints.read_constraint(i).unwrap()).collect();
    // eliminated signals, from the log the compiler writes
    let mut eliminated = vec![];
    let t = std::fs::read_to_string(log).map_err(|e| e.to_string())?;
    let j: serde_json::Value = serde_json::from_str(&t).map_err(|e| format!("substitution log: {} {}", e, t))?;
    for k in j.as_object().map(|o| o.keys().cloned().collect::<Vec<_>>()).unwrap_or_default() {
        let k: usize = k.parse().map_err(|_| "log key".to_string())?;
        eliminated.push(k);
    }
    Ok(Run { list, all, out, eliminated })
}
pub fn gen(r: &mut Rng) -> (Sys, String) {
        let p = *r.pick(&[3u64, 5, 7]);
        let n = 2 + r.us(match p { 3 => 6, 5 => 4, _ => 3 });
        let mut nodes = vec![];
        let split = if n > 3 && r.chance(1, 2) { 2 + r.us(n - 2) } else { n };
        let mut add = |r: &mut Rng, lo: usize, hi: usize| { if lo < hi { let k = 1 + r.us(4); let cs = (0..k).map(|_| gen_c(r, lo, hi, p)).filter(|c| !c.is_empty()).collect(); nodes.push((lo, hi, cs)); } };
        add(r, 1, split);
        add(r, split, n);
        let mut forb: HashSet<usize> = [0].into_iter().collect();
        for k in 1..n { if r.chance(1, 3) { forb.insert(k); } }
        let s = Sys { n, nodes, forb, p, s: r.chance(1, 4), old: r.chance(1, 2), rounds: *r.pick(&[0usize, 1, 2, usize::MAX]) };
        let mut fb: Vec<_> = s.forb.iter().cloned().collect();
        fb.sort();
        let d = format!("p={} n={} protected={:?} flag_s={} old={} rounds={} nodes={}", p, n, fb, s.s, s.old, s.rounds,
            s.nodes.iter().map(|x| format!("{}..{}: {}", x.0, x.1, x.2.iter().map(show_c).collect::<Vec<_>>().join(" ; "))).collect::<Vec<_>>().join(" | "));
    (s, d)
}
/// positions 0..k in the order of the signals, protected signals kept, every signal that still occurs kept
pub fn renumbering(s: &Sys, r: &Run) -> Result<bool, String> {
    let (list, out) = (&r.list, &r.out);
    let m = list.get_witness();
    // renumbering
    let kept = same_map(m);
    for (i, k) in kept.iter().enumerate() { if m[k] != i { return Err(format!("signal {} gets position {} instead of {}", k, m[k], i)); } }
    if kept.iter().any(|k| *k >= s.n) { return Err("a signal that does not exist gets a position".into()); }
    for f in &s.forb { if !m.contains_key(f) { return Err(format!("protected signal {} is dropped", f)); } }
    if list.get_witness_as_vec() != kept { return Err("get_witness_as_vec is not the inverse of the renumbering".into()); }
    if list.no_wires() != kept.len() { return Err("no_wires".into()); }
    for k in 0..s.n {
        let it = IteratorSignal::new(SignalInfo { name: "x".into(), id: k }, m);
        if it.witness != m.get(&k).cloned().unwrap_or(kept.len()) || it.original != k { return Err("IteratorSignal".into()); }
    }
    for c in out.iter() { for k in signals(c) { if !m.contains_key(&k) { return Err(format!("signal {} occurs in {} and has no position", k, show_c(c))); } } }
    for k in &r.eliminated { if m.contains_key(k) { return Err(format!("eliminated signal {} gets a position", k)); } }
    Ok(kept.len() < s.n)
}
/// the simplified system has the solutions of the given one, on the signals that are kept
pub fn same_solutions(s: &Sys, r: &Run) -> Result<bool, String> {
    let (p, all, out) = (s.p, &r.all, &r.out);
    let kept = same_map(r.list.get_witness());
    let before: Vec<Fast> = all.iter().map(|c| fast(c, p)).collect();
    let after: Vec<Fast> = out.iter().map(|c| fast(c, p)).collect();
    // dropped signals do not occur, so they may range freely
    if solutions(&before, s.n, &kept, p) != solutions(&after, s.n, &kept, p) { return Err(format!("solutions differ; simplified: {}", out.iter().map(show_c).collect::<Vec<_>>().join(" ; "))); }
    Ok(kept.len() < s.n)
}
