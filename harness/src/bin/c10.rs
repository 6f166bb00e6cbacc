// Numbers of signals: the .sym file and the header of whole compilations against an independent account.
use harness::e2e::*;
use harness::*;
use std::collections::BTreeMap;
fn check(g: &Prog, mode: usize, dir: &str) -> Result<bool, String> {
    let o = compile(&g.text(), g.prime, mode, dir)?;
    let sym = read_sym(&o.sym)?;
    let want = g.layout();
    ensure(sym.len() == want.len(), &format!("{} lines in the .sym file for {} signals", sym.len(), want.len()))?;
    let mut node: BTreeMap<usize, i64> = BTreeMap::new();
    for l in &sym {
        ensure(l.label >= 1 && l.label <= want.len(), &format!("signal number {} out of range", l.label))?;
        let (n, t) = &want[l.label - 1];
        ensure(*n == l.name, &format!("signal {} is {:?}, expected {:?}", l.label, l.name, n))?;
        ensure(*node.entry(*t).or_insert(l.node) == l.node, "instances of one template have different node numbers")?;
    }
    let labels: std::collections::BTreeSet<usize> = sym.iter().map(|l| l.label).collect();
    ensure(labels.len() == want.len(), "a signal number occurs twice")?;
    let r = read_r1cs(&o.r1cs)?;
    let top = g.tm.len() - 1;
    let pubs: usize = g.tm[top].wires.iter().filter(|w| w.kind == 0 && g.public.contains(&w.name)).map(|w| g.wire_cells(w).len()).sum();
    ensure(r.outs == g.kind_cells(top, 1).len() && r.pubs == pubs, "outputs or public inputs counted wrongly")?;
    ensure(r.labels == want.len() + 1, "signals counted wrongly")?;
    ensure(r.wires == r.map.len() && r.map[0] == 0, "wire map")?;
    for l in &sym { if l.wire >= 0 { ensure(r.map.get(l.wire as usize) == Some(&l.label), &format!("{} is wire {} in the .sym file but the r1cs maps that wire to another signal", l.name, l.wire))?; } }
    let kept = 1 + r.outs + r.pubs;
    ensure((0..kept).all(|i| r.map[i] == i), "outputs and public inputs are not the first wires")?;
    if mode == 0 { ensure(r.privs + pubs == g.kind_cells(top, 0).len(), "private inputs counted wrongly")?; ensure((0..r.wires).all(|i| r.map[i] == i) && r.wires == r.labels, "unsimplified wires are renumbered")?; }
    Ok(want.len() > 3)
}
fn main() {
    let mut h = Harness::new("random programs (templates, arrays, buses, subcomponent arrays, public inputs) with more than three signals");
    let dir = h.scratch.clone();
    while h.time_left() {
        let g = gen(&mut h.rng);
        let mode = h.rng.us(3);
        let d = dir.clone();
        h.case("numbers", format!("--O{}\n{}", mode, g.text()), move || check(&g, mode, &d));
    }
    h.finish();
}
