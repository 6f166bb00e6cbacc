// Sharing of template instances: two components have the same node exactly when template, parameters and tags are equal,
// and every component carries the constraints of its own parameters.
use harness::e2e::*;
use harness::*;
use num_bigint::BigInt;
use std::collections::{BTreeMap, BTreeSet};
type Mat = Vec<Vec<BigInt>>;
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Inst { Leaf(BigInt, Mat, BigInt), Alike(BigInt, Mat, BigInt), Tag(BTreeMap<String, Option<BigInt>>), Field(Option<BigInt>), Bus(usize, usize), Mid(BigInt, Mat, Mat), Main }
struct Case { prime: usize, w: [BigInt; 4], top: Vec<Inst>, mode: usize }
fn num(v: &BigInt, p: &BigInt) -> String { if *v > p / BigInt::from(2) { format!("-({})", p - v) } else { v.to_string() } }
fn mat(v: &Mat, p: &BigInt) -> String { format!("[{}]", v.iter().map(|r| format!("[{}]", r.iter().map(|x| num(x, p)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")) }
fn text(c: &Case) -> String {
    let p = big(PRIMES[c.prime].1);
    let sum = format!("{}*v[0][0]+{}*v[0][1]+{}*v[1][0]+{}*v[1][1]", c.w[0], c.w[1], c.w[2], c.w[3]);
    let mut s = format!("pragma circom 2.2.0;\nbus B(n, v) {{ signal f[n]; signal g[v[1]]; }}\nbus F() {{ signal {{t}} e; }}\n\
template Leaf(a, v, d) {{ signal input x; signal output y; y <== a*x+{s}; }}\ntemplate Alike(a, v, d) {{ signal input x; signal output y; y <== a*x-({s}); }}\n\
template Mid(a, v, w) {{ signal input x; signal output y; component l = Leaf(a, v, 0); component r = Leaf(a, w, 0); l.x <== x; r.x <== l.y; y <== r.y; }}\n\
template Tag() {{ signal input {{t, u}} x; signal output y; y <== x.t*x+x.u; }}\ntemplate Tog() {{ signal input {{t}} x; signal output y; y <== x.t*x; }}\ntemplate Tug() {{ signal input {{u}} x; signal output y; y <== x; }}\n\
template Field() {{ input F() b; signal output y; y <== b.e.t*b.e; }}\n\
template Bus(n, k) {{ signal input x; signal output y; B(n, [5, k]) q; for (var i = 0; i < n; i++) {{ q.f[i] <== (i+2)*x; }} for (var j = 0; j < k; j++) {{ q.g[j] <== x+j+1; }} y <== q.f[n-1]+q.g[k-1]; }}\n", s = sum);
    s += "template Main() { signal input in;\n";
    for (i, t) in c.top.iter().enumerate() {
        let arg = |a: &BigInt, v: &Mat, d: &BigInt| format!("{}, {}, {}", num(a, &p), mat(v, &p), num(d, &p));
        match t {
            Inst::Leaf(a, v, d) => s += &format!("component c{i} = Leaf({}); c{i}.x <== in;\n", arg(a, v, d)),
            Inst::Alike(a, v, d) => s += &format!("component c{i} = Alike({}); c{i}.x <== in;\n", arg(a, v, d)),
            Inst::Mid(a, v, w) => s += &format!("component c{i} = Mid({}, {}, {}); c{i}.x <== in;\n", num(a, &p), mat(v, &p), mat(w, &p)),
            Inst::Bus(n, k) => s += &format!("component c{i} = Bus({}, {}); c{i}.x <== in;\n", n, k),
            Inst::Tag(m) => {
                let n = if m.len() == 2 { "Tag" } else if m.contains_key("t") { "Tog" } else { "Tug" };
                s += &format!("signal {{{}}} s{i};", m.keys().cloned().collect::<Vec<_>>().join(", "));
                for (k, v) in m { if let Some(v) = v { s += &format!(" s{i}.{} = {};", k, num(v, &p)); } }
                s += &format!(" s{i} <== in; component c{i} = {}(); c{i}.x <== s{i};\n", n);
            }
            Inst::Field(v) => s += &format!("F() s{i};{} s{i}.e <== in; component c{i} = Field(); c{i}.b <== s{i};\n", match v { Some(v) => format!(" s{i}.e.t = {};", num(v, &p)), None => String::new() }),
            Inst::Main => {}
        }
    }
    s + "}\ncomponent main = Main();\n"
}
fn lin(a: &[(&BigInt, String)]) -> Form { let mut f = Form::new(); for (v, n) in a { *f.entry(n.clone()).or_default() += *v; } f }
fn eq(y: String, x: String, a: &BigInt, k: &BigInt, p: &BigInt) -> Poly { monic(poly(&Form::new(), &Form::new(), &lin(&[(a, x), (k, String::new()), (&BigInt::from(-1), y)]), p), p) }
fn konst(c: &Case, v: &Mat) -> BigInt { &c.w[0] * &v[0][0] + &c.w[1] * &v[0][1] + &c.w[2] * &v[1][0] + &c.w[3] * &v[1][1] }
fn expand(c: &Case, name: String, t: &Inst, q: &mut Vec<Poly>, who: &mut Vec<(String, Inst)>, p: &BigInt) {
    let (x, y) = (format!("{}.x", name), format!("{}.y", name));
    who.push((name.clone(), t.clone()));
    match t {
        Inst::Leaf(a, v, _) => q.push(eq(y, x, a, &konst(c, v), p)),
        Inst::Alike(a, v, _) => q.push(eq(y, x, a, &-konst(c, v), p)),
        Inst::Mid(a, v, w) => {
            let z = BigInt::from(0);
            let one = BigInt::from(1);
            q.push(eq(format!("{}.l.x", name), x, &one, &z, p));
            q.push(eq(format!("{}.r.x", name), format!("{}.l.y", name), &one, &z, p));
            q.push(eq(y, format!("{}.r.y", name), &one, &z, p));
            expand(c, format!("{}.l", name), &Inst::Leaf(a.clone(), v.clone(), z.clone()), q, who, p);
            expand(c, format!("{}.r", name), &Inst::Leaf(a.clone(), w.clone(), z), q, who, p);
        }
        Inst::Bus(n, k) => {
            for i in 0..*n { q.push(eq(format!("{}.q.f[{}]", name, i), x.clone(), &BigInt::from(i + 2), &BigInt::from(0), p)); }
            for j in 0..*k { q.push(eq(format!("{}.q.g[{}]", name, j), x.clone(), &BigInt::from(1), &BigInt::from(j + 1), p)); }
            let o = BigInt::from(1);
            q.push(monic(poly(&Form::new(), &Form::new(), &lin(&[(&o, format!("{}.q.f[{}]", name, n - 1)), (&o, format!("{}.q.g[{}]", name, k - 1)), (&-o.clone(), y)]), p), p));
        }
        Inst::Tag(m) => {
            let one = BigInt::from(1);
            let a = if m.contains_key("t") { m["t"].clone().unwrap() } else { one };
            let k = if m.len() == 2 { m["u"].clone().unwrap() } else { BigInt::from(0) };
            q.push(eq(y, x, &a, &k, p));
        }
        Inst::Field(v) => q.push(eq(y, format!("{}.b.e", name), v.as_ref().unwrap(), &BigInt::from(0), p)),
        Inst::Main => {
            for (i, t) in c.top.iter().enumerate() {
                let n = format!("main.c{}", i);
                let (o, z) = (BigInt::from(1), BigInt::from(0));
                match t {
                    Inst::Tag(_) => { q.push(eq(format!("main.s{}", i), "main.in".into(), &o, &z, p)); q.push(eq(format!("{}.x", n), format!("main.s{}", i), &o, &z, p)); }
                    Inst::Field(_) => { q.push(eq(format!("main.s{}.e", i), "main.in".into(), &o, &z, p)); q.push(eq(format!("{}.b.e", n), format!("main.s{}.e", i), &o, &z, p)); }
                    _ => q.push(eq(format!("{}.x", n), "main.in".into(), &o, &z, p)),
                }
                expand(c, n, t, q, who, p);
            }
        }
    }
}
fn check(c: &Case, dir: &str) -> Result<bool, String> {
    let p = big(PRIMES[c.prime].1);
    let o = compile(&text(c), c.prime, c.mode, dir)?;
    let sym = read_sym(&o.sym)?;
    let (mut want, mut who) = (vec![], vec![]);
    expand(c, "main".into(), &Inst::Main, &mut want, &mut who, &p);
    let mut node: BTreeMap<String, i64> = BTreeMap::new();
    for l in &sym {
        // the component is the longest known prefix
        let owner = who.iter().map(|w| &w.0).filter(|w| l.name.starts_with(&format!("{}.", w))).max_by_key(|w| w.len()).ok_or_else(|| format!("{} belongs to no component", l.name))?;
        ensure(*node.entry(owner.clone()).or_insert(l.node) == l.node, "the signals of a component name two instances")?;
    }
    let mut shared = false;
    for (i, (n, t)) in who.iter().enumerate() { for (m, u) in &who[..i] {
        let (a, b) = (node.get(n).ok_or_else(|| format!("{} has no signals", n))?, node.get(m).unwrap());
        if t != u { ensure(a != b, &format!("{} = {:?} and {} = {:?} share an instance", n, t, m, u))?; }
        else { ensure(a == b, &format!("{} and {} are both {:?} but were compiled twice", n, m, t))?; shared = true; }
    } }
    if c.mode == 0 {
        let r = read_r1cs(&o.r1cs)?;
        let mut names = vec![String::new(); sym.len() + 1];
        for l in &sym { *names.get_mut(l.label).ok_or("a label out of range")? = l.name.clone(); }
        let form = |l: &RLin| -> Result<Form, String> { let mut f = Form::new(); for (w, v) in l { f.insert(names.get(*w).ok_or("no such wire")?.clone(), v.clone()); } Ok(f) };
        let mut got = vec![];
        for k in &r.cons { let neg: Form = form(&k[2])?.into_iter().map(|(n, v)| (n, emod(&-v, &p))).collect(); got.push(monic(poly(&form(&k[0])?, &form(&k[1])?, &neg, &p), &p)); }
        got.sort(); want.sort();
        for q in &want { ensure(got.contains(q), &format!("no constraint {:?}", q))?; }
        ensure(got == want, "a constraint that no instance has")?;
    }
    let distinct: BTreeSet<&Inst> = c.top.iter().collect();
    Ok(shared && distinct.len() > 1)
}
fn main() {
    let mut h = Harness::new("random instantiations from a small pool of parameters (numbers, arrays of two shapes, tags, bus parameters), with both an equal and a different pair");
    let dir = h.scratch.clone();
    while h.time_left() {
        let prime = h.rng.us(PRIMES.len());
        let p = big(PRIMES[prime].1);
        let r = &mut h.rng;
        let w = [0; 4].map(|_| r.elem(&p));
        let pool: Vec<BigInt> = vec![BigInt::from(1), BigInt::from(2), &p - BigInt::from(1), r.elem(&p)];
        let flat: Vec<BigInt> = (0..6).map(|_| r.elem(&p)).collect();
        let base: Mat = vec![flat[..3].to_vec(), flat[3..].to_vec()];
        let turned: Mat = vec![flat[..2].to_vec(), flat[2..4].to_vec(), flat[4..].to_vec()];
        let mut mats = vec![base.clone(), turned];
        for _ in 0..2 { let mut m = base.clone(); let (i, j) = (r.us(2), r.us(3)); m[i][j] = r.elem(&p); mats.push(m); }
        let mut top = vec![];
        for _ in 0..2 + r.us(6) {
            let (a, v, d) = (r.pick(&pool).clone(), r.pick(&mats).clone(), BigInt::from(r.us(2)));
            top.push(match r.us(12) {
                0..=2 => Inst::Leaf(a, v, d), 3 => Inst::Alike(a, v, d), 4 | 5 => Inst::Mid(a, v, r.pick(&mats).clone()), 6 | 7 => Inst::Bus(1 + r.us(3), 1 + r.us(3)),
                8 => Inst::Field(Some(a)),
                9 => Inst::Tag([("t".to_string(), Some(a)), ("u".to_string(), Some(r.pick(&pool).clone()))].into_iter().collect()),
                10 => Inst::Tag([("t".to_string(), Some(a))].into_iter().collect()),
                _ => Inst::Tag([("u".to_string(), if r.chance(1, 2) { None } else { Some(a) })].into_iter().collect()),
            });
            if r.chance(1, 3) { let t = r.pick(&top).clone(); top.push(t); }
            if r.chance(1, 4) { // a neighbour: one thing differs
                let t = match r.pick(&top).clone() {
                    Inst::Leaf(a, v, d) => if r.chance(1, 2) { Inst::Leaf(a, r.pick(&mats).clone(), d) } else { Inst::Leaf(r.pick(&pool).clone(), v, d) },
                    Inst::Mid(a, v, w) => if r.chance(1, 2) { Inst::Mid(a, w, v) } else { Inst::Leaf(a, v, BigInt::from(0)) },
                    Inst::Bus(n, k) => Inst::Bus(n, 1 + (k % 3)),
                    t => t };
                top.push(t);
            }
        }
        let c = Case { prime, w, top, mode: *r.pick(&[0, 0, 1, 2]) };
        let d = dir.clone();
        h.case("sharing", format!("--O{}\n{}", c.mode, text(&c)), move || check(&c, &d));
    }
    h.finish();
}
