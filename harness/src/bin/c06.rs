// .r1cs files decoded from the published format alone and compared with what was to be written.
use constraint_writers::r1cs_writer::*;
use harness::e2e::*;
use harness::*;
use num_bigint::BigInt;
use std::collections::HashMap;
type L = HashMap<usize, BigInt>;
struct File { prime: usize, cons: Vec<[L; 3]>, head: [usize; 6], map: Vec<usize>, gates: Option<(Vec<(String, Vec<BigInt>)>, Vec<(usize, Vec<usize>)>)> }
fn field_size(p: &BigInt) -> usize { let b = p.bits() as usize; (b + 63) / 64 * 8 }
fn num(r: &mut Rng, max: u64) -> usize { let m = 1u64 << r.below(64 - max.leading_zeros() as u64 + 1).min(63); (match r.us(4) { 0 => m.min(max), 1 => (m - 1).min(max), 2 => r.below(m.max(1)).min(max), _ => r.below(40).min(max) }) as usize }
fn lc(r: &mut Rng, p: &BigInt) -> L { let n = match r.us(5) { 0 => 0, 1 => 1, 2 => r.us(300), _ => r.us(8) }; (0..n).map(|_| (num(r, (1 << 32) - 1), r.elem(p))).collect() }
fn file(r: &mut Rng) -> File {
    let prime = r.us(PRIMES.len());
    let p = big(PRIMES[prime].1);
    let cons = (0..r.us(6)).map(|_| [lc(r, &p), lc(r, &p), lc(r, &p)]).collect();
    let mut head = [0; 6];
    for x in head.iter_mut() { *x = num(r, (1 << 32) - 1); }
    let map: Vec<usize> = (0..match r.us(4) { 0 => 0, 1 => r.us(600), _ => 1 + r.us(9) }).map(|_| num(r, 1 << 62)).collect();
    head[0] = map.len();
    head[4] = num(r, 1 << 62);
    let gates = if r.chance(1, 2) { None } else {
        let used = (0..r.us(4)).map(|i| (format!("{}{}", ["Gate", "g_", "X$"][r.us(3)], i), (0..r.us(5)).map(|_| r.elem(&p)).collect())).collect();
        let app = (0..r.us(6)).map(|_| (num(r, (1 << 32) - 1), (0..r.us(300)).map(|_| num(r, 1 << 62)).collect())).collect();
        Some((used, app))
    };
    File { prime, cons, head, map, gates }
}
fn written(f: &File, path: &str) -> Result<(), ()> {
    let p = big(PRIMES[f.prime].1);
    let w = R1CSWriter::new(path.to_string(), field_size(&p), f.gates.is_some())?;
    let mut c = R1CSWriter::start_constraints_section(w)?;
    for x in &f.cons { c.write_constraint_usize(&x[0], &x[1], &x[2])?; }
    let n = c.constraints_written();
    let w = c.end_section()?;
    let mut s = R1CSWriter::start_header_section(w)?;
    s.write_section(HeaderData { field: p, total_wires: f.head[0], public_outputs: f.head[1], public_inputs: f.head[2], private_inputs: f.head[3], number_of_labels: f.head[4], number_of_constraints: n })?;
    let w = s.end_section()?;
    let mut s = R1CSWriter::start_signal_section(w)?;
    for x in &f.map { s.write_signal_usize(*x)?; }
    let w = s.end_section()?;
    let Some((used, app)) = &f.gates else { return R1CSWriter::finish_writing(w) };
    let mut s = R1CSWriter::start_custom_gates_used_section(w)?;
    s.write_custom_gates_usages(used.clone())?;
    let w = s.end_section()?;
    let mut s = R1CSWriter::start_custom_gates_applied_section(w)?;
    s.write_custom_gates_applications(app.clone())?;
    R1CSWriter::finish_writing(s.end_section()?)
}
fn direct(f: &File, dir: &str) -> Result<bool, String> {
    let path = format!("{}/direct.r1cs", dir);
    let _ = std::fs::remove_file(&path);
    written(f, &path).map_err(|_| "not written".to_string())?;
    let r = read_r1cs(&std::fs::read(&path).map_err(|e| e.to_string())?)?;
    let p = big(PRIMES[f.prime].1);
    ensure(r.prime == p && r.field_size == field_size(&p), "prime or field size")?;
    ensure(r.cons.len() == f.cons.len(), "number of constraints")?;
    for (i, (a, b)) in r.cons.iter().zip(&f.cons).enumerate() {
        for k in 0..3 { let m: L = a[k].iter().cloned().collect(); ensure(m.len() == a[k].len() && m == b[k], &format!("linear combination {} of constraint {} reads back as {:?}", k, i, a[k]))?; }
    }
    ensure(r.wires == f.head[0] && r.outs == f.head[1] && r.pubs == f.head[2] && r.privs == f.head[3] && r.labels == f.head[4], "a count of the header")?;
    ensure(r.map == f.map, "wire map")?;
    let (used, app) = f.gates.clone().unwrap_or_default();
    ensure(r.gates == used, "custom gates used")?;
    ensure(r.applied == app, "custom gates applied")?;
    Ok(!f.cons.is_empty())
}
fn tell(f: &File) -> String { format!("prime {} header {:?} map {:?}\nconstraints {:?}\ngates {:?}", PRIMES[f.prime].0, f.head, f.map, f.cons, f.gates) }
// compiled programs: custom gates and header
fn cells_of(g: &Prog, t: usize) -> Vec<String> { g.tm[t].wires.iter().flat_map(|w| g.wire_cells(w)).collect() }
fn uses(g: &Prog, t: usize, path: &str, v: &mut Vec<(usize, String)>) {
    if g.tm[t].custom { v.push((t, path.to_string())); return; }
    for (n, k) in g.kids(t) { uses(g, k, &format!("{}.{}", path, n), v); }
}
fn compiled(g: &Prog, mode: usize, dir: &str) -> Result<bool, String> {
    let o = compile(&g.text(), g.prime, mode, dir)?;
    let r = read_r1cs(&o.r1cs)?;
    let (p, top) = (g.p(), g.tm.len() - 1);
    ensure(r.prime == p && r.field_size == field_size(&p), "prime or field size")?;
    let mut names = vec!["1".to_string()];
    names.extend(g.layout().into_iter().map(|x| x.0));
    let name = |w: usize| -> Result<&str, String> { r.map.get(w).and_then(|s| names.get(*s)).map(|s| s.as_str()).ok_or_else(|| format!("wire {} does not exist", w)) };
    ensure(r.wires == r.map.len() && r.labels == names.len(), "number of wires or of labels")?;
    let public: usize = g.tm[top].wires.iter().filter(|w| w.kind == 0 && g.public.contains(&w.name)).map(|w| g.wire_cells(w).len()).sum();
    ensure(r.outs == g.kind_cells(top, 1).len() && r.pubs == public && r.privs == g.kind_cells(top, 0).len() - public, "public outputs, public inputs or private inputs")?;
    for c in &r.cons { for l in c { for (w, _) in l { name(*w)?; } } }
    let any = g.tm.iter().any(|t| t.custom);
    let n = u32::from_le_bytes([o.r1cs[8], o.r1cs[9], o.r1cs[10], o.r1cs[11]]);
    ensure(n == if any { 5 } else { 3 }, "number of sections")?;
    let mut want = vec![];
    uses(g, top, "main", &mut want);
    let mut want: Vec<(String, Vec<BigInt>, Vec<String>)> = want.into_iter().map(|(t, at)| (format!("T{}", t), vec![], cells_of(g, t).into_iter().map(|c| format!("{}.{}", at, c)).collect())).collect();
    let mut got = vec![];
    for (k, ws) in &r.applied {
        let (t, ps) = r.gates.get(*k).ok_or("an application of a gate that is not listed")?;
        let ns: Result<Vec<String>, String> = ws.iter().map(|w| name(*w).map(|s| s.to_string())).collect();
        got.push((t.clone(), ps.clone(), ns?));
    }
    want.sort(); got.sort();
    for w in &want { ensure(got.contains(w), &format!("the use {:?} of a custom gate is missing", w))?; }
    ensure(got.len() == want.len(), "more uses of custom gates than in the circuit")?;
    Ok(!want.is_empty())
}
// gates with parameters
fn params(vals: &[(i64, Vec<i64>)], mode: usize, prime: usize, dir: &str) -> Result<bool, String> {
    let mut s = "pragma circom 2.2.0;\npragma custom_templates;\ntemplate custom G(a, b) { signal input x; signal output y; y <-- x*a + b[0]; }\ntemplate custom H() { signal input x; signal output z; z <-- x; }\ntemplate M() { signal input i; signal output o;\n".to_string();
    for (k, (a, b)) in vals.iter().enumerate() { s += &format!("  component g{} = G({}, [{}]); g{}.x <== i*i;\n", k, a, b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), k); }
    s += "  component h = H(); h.x <== i; o <== h.z;\n}\ncomponent main = M();\n";
    let o = compile(&s, prime, mode, dir)?;
    let r = read_r1cs(&o.r1cs)?;
    let p = big(PRIMES[prime].1);
    let mut want: Vec<(String, Vec<BigInt>)> = vals.iter().map(|(a, b)| ("G".to_string(), std::iter::once(a).chain(b).map(|x| emod(&BigInt::from(*x), &p)).collect())).collect();
    want.push(("H".into(), vec![]));
    let mut got = vec![];
    for (k, ws) in &r.applied { ensure(ws.len() == 2, "number of signals of a gate")?; got.push(r.gates.get(*k).ok_or("an application of a gate that is not listed")?.clone()); }
    want.sort(); got.sort();
    ensure(want == got, &format!("gates applied are {:?}", got))?;
    want.dedup();
    let mut used = r.gates.clone(); used.sort();
    ensure(used == want, &format!("gates listed are {:?}", used))?;
    Ok(true)
}
fn main() {
    let mut h = Harness::new("files with a constraint; compiled programs with a custom gate");
    let dir = h.scratch.clone();
    while h.time_left() {
        let d = dir.clone();
        match h.rng.us(8) {
            0 | 1 => { let g = gen(&mut h.rng); let mode = h.rng.us(3); h.case("compiled", format!("--O{}\n{}", mode, g.text()), move || compiled(&g, mode, &d)); }
            2 => {
                let vals: Vec<(i64, Vec<i64>)> = (0..1 + h.rng.us(4)).map(|_| (h.rng.us(4) as i64 - 1, (0..1 + h.rng.us(2)).map(|_| h.rng.us(3) as i64 * 1_000_003 - 1).collect())).collect();
                let n = vals[0].1.len();
                let vals: Vec<_> = vals.into_iter().filter(|v| v.1.len() == n).collect();
                let (mode, prime) = (h.rng.us(3), h.rng.us(PRIMES.len()));
                h.case("parameters", format!("--O{} {} {:?}", mode, PRIMES[prime].0, vals), move || params(&vals, mode, prime, &d));
            }
            _ => { let f = file(&mut h.rng); h.case("writer", tell(&f), move || direct(&f, &d)); }
        }
    }
    h.finish();
}
