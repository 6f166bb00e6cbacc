// Anonymous components and tuples mean the plain statements they abbreviate: random templates written with them are
// compiled, the constraints are solved from the inputs, and every signal is compared with its value by definition;
// misplaced anonymous components and tuples are rejected with a report.
use harness::*;
use harness::e2e::*;
use num_bigint::BigInt;
use program_structure::ast::Statement;
use std::collections::HashMap;
type Env = HashMap<String, BigInt>;
const LIB: &str = "template One(k) { signal input v; signal output r; r <== v*v + k; }
template Mul(k) { signal output o; signal input a; signal input b; o <== a*b + 3*a + k; }
template Two(k) { signal input a; signal output p; signal input b; signal output q; p <== a*b + k; q <== a*a - k*b; }
template Arr(k) { signal input a[2]; signal input c; signal output o[2]; o[0] <== a[0]*c + k; o[1] <== a[1]*a[0] - c; }
template Tri(k, m) { signal input s; signal output x; signal output y[2]; signal output z; x <== s*s; y[0] <== s + k; y[1] <== s*k + m; z <== s*s + m; }
template Sink(k) { signal input a; signal t; t <== a*a + k; }
template Src(k) { signal output w; w <== 7*k; }
";
// an argument or right-hand side, its cost in signals and constraints counted when evaluated
#[derive(Clone)]
enum E { Num(i64), Sig(String, Vec<Ix>), Lin(Box<E>, i64, Box<E>), One(i64, Box<E>), Mul(i64, Box<E>, Box<E>, u8), Src(i64), Par(Box<E>) }
#[derive(Clone)]
enum Ix { N(usize), V(String) }
// an array of two
#[derive(Clone)]
enum A { Sig(String), Lit(E, E), Arr(i64, Box<A>, Box<E>, u8) }
#[derive(Clone)]
enum M { One(E), Two(i64, E, E, u8), Tri(i64, i64, E), Tup(Vec<M>) }
// what an assignment delivers
#[derive(Clone)]
enum S { Set(String, Vec<Ix>, E, u8), SetA(String, A), Tuple(Vec<Option<(String, Vec<Ix>)>>, M, u8), Sink(i64, E), Drop(E), For(String, usize, Vec<S>), If(Cond, Vec<S>, Vec<S>), Log(String), Var(String, E, String, bool), Block(Vec<S>) }
#[derive(Clone)]
enum Cond { Is(String, usize), Param(usize) }
struct G { r: Rng, k: usize, decls: Vec<(String, Vec<usize>)>, known: Vec<String>, arrs: Vec<String>, param: usize }
impl G {
    fn fresh(&mut self, p: &str, dims: &[usize]) -> String { self.k += 1; let n = format!("{}{}", p, self.k); self.decls.push((n.clone(), dims.to_vec())); n }
    fn plain(&mut self, d: usize) -> E {
        if d > 0 && self.r.chance(1, 3) { return E::Lin(Box::new(self.plain(d - 1)), self.r.us(9) as i64 - 4, Box::new(self.plain(d - 1))); }
        if self.r.chance(1, 6) { return E::Num(self.r.us(20) as i64); }
        if self.r.chance(1, 4) && !self.arrs.is_empty() { let a = self.r.pick(&self.arrs.clone()).clone(); return E::Sig(a, vec![Ix::N(self.r.us(2))]); }
        let s = self.known.clone();
        E::Sig(self.r.pick(&s).clone(), vec![])
    }
    fn arg(&mut self, d: usize) -> E {
        if d == 0 { return self.plain(1); }
        match self.r.us(9) {
            0 | 1 => E::One(self.r.us(5) as i64, Box::new(self.arg(d - 1))),
            2 | 3 | 4 => E::Mul(self.r.us(5) as i64, Box::new(self.arg(d - 1)), Box::new(self.arg(d - 1)), self.r.us(3) as u8),
            5 => E::Src(self.r.us(5) as i64),
            6 => { let e = match self.r.us(2) { 0 => E::One(self.r.us(5) as i64, Box::new(self.arg(d - 1))), _ => E::Mul(1, Box::new(self.arg(d - 1)), Box::new(self.arg(d - 1)), self.r.us(3) as u8) }; E::Par(Box::new(e)) }
            _ => self.plain(1),
        }
    }
    fn array(&mut self, d: usize) -> A {
        match self.r.us(3) { 0 if !self.arrs.is_empty() => A::Sig(self.r.pick(&self.arrs.clone()).clone()), 1 if d > 0 => A::Arr(self.r.us(4) as i64, Box::new(self.array(d - 1)), Box::new(self.arg(d - 1)), self.r.us(3) as u8), _ => A::Lit(self.arg(d.min(1)), self.arg(d.min(1))) }
    }
    fn multi(&mut self, d: usize, inner: bool) -> M {
        match self.r.us(if inner { 3 } else { 4 }) {
            0 if inner => M::One(self.arg(d)),
            1 if d > 0 && inner => { let n = 2 + self.r.us(2); M::Tup((0..n).map(|_| self.multi(d - 1, true)).collect()) }
            0 | 1 | 2 => M::Two(self.r.us(4) as i64, self.arg(d), self.arg(d), self.r.us(3) as u8),
            _ => { let n = 2 + self.r.us(2); M::Tup((0..n).map(|_| self.multi(d.min(1), true)).collect()) }
        }
    }
    fn width(m: &M) -> usize { match m { M::One(_) => 1, M::Two(..) => 2, M::Tri(..) => 3, M::Tup(v) => v.iter().map(G::width).sum() } }
    // a statement; `at` are the loop variables around it with their bounds, names set in it become known only afterwards
    fn stmt(&mut self, at: &[(String, usize)], depth: usize, new: &mut Vec<String>, new_arr: &mut Vec<String>) -> S {
        let dims: Vec<usize> = at.iter().map(|x| x.1).collect();
        let ix: Vec<Ix> = at.iter().map(|x| Ix::V(x.0.clone())).collect();
        match self.r.us(13) {
            0 | 1 | 2 => { let e = self.arg(3); let n = self.fresh("s", &dims); if at.is_empty() { new.push(n.clone()); } S::Set(n, ix, e, self.r.us(2) as u8) }
            3 if at.is_empty() => { let a = self.array(2); let n = self.fresh("t", &[2]); new_arr.push(n.clone()); S::SetA(n, a) }
            4 | 5 => {
                let m = self.multi(2, false);
                let w = G::width(&m);
                let t = (0..w).map(|_| if self.r.chance(1, 5) { None } else { let n = self.fresh("u", &dims); if at.is_empty() { new.push(n.clone()); } Some((n, ix.clone())) }).collect();
                S::Tuple(t, m, self.r.us(3) as u8)
            }
            6 if at.is_empty() => {
                let m = M::Tri(self.r.us(4) as i64, self.r.us(4) as i64, self.arg(2));
                let x = self.fresh("u", &[]); let y = self.fresh("t", &[2]);
                new.push(x.clone()); new_arr.push(y.clone());
                S::Tuple(vec![Some((x, vec![])), Some((y, vec![])), None], m, 0)
            }
            7 => S::Sink(self.r.us(4) as i64, self.arg(2)),
            8 => S::Drop(self.arg(2)),
            9 | 10 if depth > 0 && at.len() < 2 => {
                let v = format!("i{}", { self.k += 1; self.k });
                let n = 1 + self.r.us(3);
                let mut a = at.to_vec();
                a.push((v.clone(), n));
                let mut b = vec![];
                for _ in 0..1 + self.r.us(3) { b.push(self.stmt(&a, depth - 1, new, new_arr)); }
                S::For(v, n, b)
            }
            11 if depth > 0 => {
                // both branches set the same signals
                let c = if !at.is_empty() && self.r.chance(2, 3) { let i = self.r.us(at.len()); Cond::Is(at[i].0.clone(), self.r.us(at[i].1 + 1)) } else { Cond::Param(self.r.us(3)) };
                let (e, f) = (self.arg(2), self.arg(2));
                let n = self.fresh("s", &dims);
                if at.is_empty() { new.push(n.clone()); }
                let (mut x, mut y) = (vec![S::Set(n.clone(), ix.clone(), e, 0)], vec![S::Set(n, ix, f, 0)]);
                if self.r.chance(1, 3) { let a = self.arg(2); x.push(S::Sink(2, a)); }
                if self.r.chance(1, 3) { let a = self.arg(2); y.insert(0, S::Drop(a)); }
                if self.r.chance(1, 6) { x.remove(0); y.retain(|s| !matches!(s, S::Set(..))); let a = self.arg(1); let s = S::Set(self.decls.last().unwrap().0.clone(), at.iter().map(|x| Ix::V(x.0.clone())).collect(), a, 0); return S::Block(vec![S::If(c, x, y), s]); }
                S::If(c, x, y)
            }
            12 if self.r.chance(1, 2) => S::Log(self.text()),
            _ => { let e = self.arg(2); let n = self.fresh("s", &dims); if at.is_empty() { new.push(n.clone()); } self.k += 1; S::Var(format!("q{}", self.k), e, format!("{}{}", n, ixs(&ix)), self.r.chance(1, 2)) }
        }
    }
    fn text(&mut self) -> String {
        let n = self.r.us(5) * 130 + self.r.us(40);
        let mut t: String = (0..n).map(|_| { let c = ['a', 'b', ' ', '\u{e9}', '\u{20ac}', '\u{1f600}', '%', '\''] ; *self.r.pick(&c) }).collect();
        if self.r.chance(1, 2) { t = t.replace('%', "c").replace('\u{e9}', "d"); }
        let l = if self.r.chance(1, 2) { let (a, b) = (self.plain(0), self.plain(1)); format!(", ({}, {})", show(&a), show(&b)) } else { String::new() };
        format!("log(\"{}\"{});", t, l)
    }
}
fn ixs(v: &[Ix]) -> String { v.iter().map(|i| match i { Ix::N(n) => format!("[{}]", n), Ix::V(x) => format!("[{}]", x) }).collect() }
fn two(a: String, b: String, na: &str, nb: &str, style: u8) -> String { match style { 1 => format!("{na} <== {a}, {nb} <== {b}"), 2 => format!("{nb} <== {b}, {na} <== {a}"), _ => format!("{a}, {b}") } }
fn show(e: &E) -> String {
    match e {
        E::Num(n) => format!("{}", n), E::Sig(s, i) => format!("{}{}", s, ixs(i)), E::Lin(a, k, b) => format!("({} + {} * {})", show(a), if *k < 0 { format!("(-{})", -k) } else { k.to_string() }, show(b)),
        E::One(k, a) => format!("One({})({})", k, show(a)), E::Mul(k, a, b, s) => format!("Mul({})({})", k, two(show(a), show(b), "a", "b", *s)), E::Src(k) => format!("Src({})()", k), E::Par(a) => format!("parallel {}", show(a)),
    }
}
fn show_a(a: &A) -> String { match a { A::Sig(s) => s.clone(), A::Lit(x, y) => format!("[{}, {}]", show(x), show(y)), A::Arr(k, x, c, s) => format!("Arr({})({})", k, two(show_a(x), show(c), "a", "c", *s)) } }
fn show_m(m: &M) -> String { match m { M::One(e) => show(e), M::Two(k, a, b, s) => format!("Two({})({})", k, two(show(a), show(b), "a", "b", *s)), M::Tri(k, m, a) => format!("Tri({}, {})({})", k, m, show(a)), M::Tup(v) => format!("({})", v.iter().map(show_m).collect::<Vec<_>>().join(", ")) } }
fn show_s(s: &S, o: &mut String) {
    match s {
        S::Set(n, i, e, 0) => *o += &format!("{}{} <== {};\n", n, ixs(i), show(e)),
        S::Set(n, i, e, _) => *o += &format!("{} ==> {}{};\n", show(e), n, ixs(i)),
        S::SetA(n, a) => *o += &format!("{} <== {};\n", n, show_a(a)),
        S::Tuple(t, m, style) => {
            let v: Vec<String> = t.iter().map(|x| match x { Some((n, i)) => format!("{}{}", n, ixs(i)), None => "_".into() }).collect();
            // the targets may be grouped in any way
            let l = if *style == 2 && v.len() > 2 { format!("({}, ({}))", v[0], v[1..].join(", ")) } else { format!("({})", v.join(", ")) };
            *o += &if *style == 1 { format!("{} ==> {};\n", show_m(m), l) } else { format!("{} <== {};\n", l, show_m(m)) };
        }
        S::Sink(k, e) => *o += &format!("Sink({})({});\n", k, show(e)),
        S::Drop(e) => *o += &format!("_ <== {};\n", show(e)),
        S::For(v, n, b) => { *o += &format!("for (var {v} = 0; {v} < {n}; {v}++) {{\n"); for x in b { show_s(x, o); } *o += "}\n"; }
        S::If(c, a, b) => {
            *o += &match c { Cond::Is(v, n) => format!("if ({} == {}) {{\n", v, n), Cond::Param(n) => format!("if (n == {}) {{\n", n) };
            for x in a { show_s(x, o); }
            *o += "}";
            if !b.is_empty() { *o += " else {\n"; for x in b { show_s(x, o); } *o += "}"; }
            *o += "\n";
        }
        S::Log(t) => { *o += t; *o += "\n"; }
        S::Var(q, e, n, decl) => *o += &if *decl { format!("var {q} = {}; {n} <== {q};\n", show(e)) } else { format!("var {q}; {q} = {}; {n} <== {q} + 0;\n", show(e)) },
        S::Block(b) => { *o += "{\n"; for x in b { show_s(x, o); } *o += "}\n"; }
    }
}
struct Ev { p: BigInt, env: Env, loops: HashMap<String, usize>, n: usize, wires: usize, cons: usize }
impl Ev {
    fn m(&self, x: BigInt) -> BigInt { emod(&x, &self.p) }
    fn name(&self, s: &str, i: &[Ix]) -> String { format!("{}{}", s, i.iter().map(|x| match x { Ix::N(n) => format!("[{}]", n), Ix::V(v) => format!("[{}]", self.loops[v]) }).collect::<String>()) }
    fn e(&mut self, e: &E) -> BigInt {
        match e {
            E::Num(n) => BigInt::from(*n), E::Sig(s, i) => self.env[&self.name(s, i)].clone(), E::Lin(a, k, b) => { let v = self.e(a) + self.e(b) * k; self.m(v) }
            E::One(k, a) => { let v = self.e(a); self.wires += 2; self.cons += 2; self.m(&v * &v + k) }
            E::Mul(k, a, b, _) => { let (x, y) = (self.e(a), self.e(b)); self.wires += 3; self.cons += 3; self.m(&x * &y + BigInt::from(3) * &x + k) }
            E::Src(k) => { self.wires += 1; self.cons += 1; self.m(BigInt::from(7 * k)) } E::Par(a) => self.e(a),
        }
    }
    fn a(&mut self, a: &A) -> [BigInt; 2] {
        match a { A::Sig(s) => [self.env[&format!("{}[0]", s)].clone(), self.env[&format!("{}[1]", s)].clone()], A::Lit(x, y) => [self.e(x), self.e(y)], A::Arr(k, x, c, _) => { let v = self.a(x); let c = self.e(c); self.wires += 5; self.cons += 5; [self.m(&v[0] * &c + k), self.m(&v[1] * &v[0] - &c)] } }
    }
    // the values of the elements (an array output counts as one element)
    fn mm(&mut self, m: &M) -> Vec<Vec<BigInt>> {
        match m {
            M::One(e) => vec![vec![self.e(e)]],
            M::Two(k, a, b, _) => { let (x, y) = (self.e(a), self.e(b)); self.wires += 4; self.cons += 4; vec![vec![self.m(&x * &y + k)], vec![self.m(&x * &x - &y * k)]] }
            M::Tri(k, m, a) => { let s = self.e(a); self.wires += 5; self.cons += 5; vec![vec![self.m(&s * &s)], vec![self.m(&s + k), self.m(&s * k + m)], vec![self.m(&s * &s + m)]] }
            M::Tup(v) => v.iter().flat_map(|x| self.mm(x)).collect(),
        }
    }
    fn s(&mut self, s: &S) {
        match s {
            S::Set(n, i, e, _) => { let v = self.e(e); let n = self.name(n, i); self.cons += 1; self.env.insert(n, v); }
            S::SetA(n, a) => { let v = self.a(a); for (i, x) in v.into_iter().enumerate() { self.cons += 1; self.env.insert(format!("{}[{}]", n, i), x); } }
            S::Tuple(t, m, _) => {
                let v = self.mm(m);
                for (x, y) in t.iter().zip(v) {
                    if let Some((n, i)) = x {
                        let n = self.name(n, i);
                        self.cons += y.len();
                        if y.len() == 1 { self.env.insert(n, y[0].clone()); } else { for (j, z) in y.into_iter().enumerate() { self.env.insert(format!("{}[{}]", n, j), z); } }
                    }
                }
            }
            S::Sink(_, e) => { self.e(e); self.wires += 2; self.cons += 2; }
            S::Drop(e) => { self.e(e); }
            S::For(v, n, b) => for i in 0..*n { self.loops.insert(v.clone(), i); for x in b { self.s(x); } },
            S::If(c, a, b) => { let y = match c { Cond::Is(v, n) => self.loops[v] == *n, Cond::Param(n) => self.n == *n }; for x in if y { a } else { b } { self.s(x); } }
            S::Log(_) => {}
            S::Var(_, e, n, _) => { let v = self.e(e); let mut n = n.clone(); for (x, i) in &self.loops { n = n.replace(&format!("[{}]", x), &format!("[{}]", i)); } self.cons += 1; self.env.insert(n, v); }
            S::Block(b) => for x in b { self.s(x); },
        }
    }
}
fn solve(r: &R1cs, mut w: Vec<Option<BigInt>>) -> Result<Vec<BigInt>, String> {
    let p = &r.prime;
    loop {
        let mut any = false;
        for [a, b, c] in &r.cons {
            let lin = |l: &RLin| { let mut k = BigInt::from(0); let mut u: Vec<(usize, BigInt)> = vec![]; for (i, f) in l { match &w[*i] { Some(v) => k += f * v, None => u.push((*i, f.clone())) } } (emod(&k, p), u) };
            let (a, b, c) = (lin(a), lin(b), lin(c));
            if !a.1.is_empty() || !b.1.is_empty() || c.1.len() != 1 { continue; }
            let (i, f) = c.1[0].clone();
            w[i] = Some(emod(&((&a.0 * &b.0 - &c.0) * inv(&f, p)), p));
            any = true;
        }
        if !any { break; }
    }
    let mut v = vec![];
    for (i, x) in w.into_iter().enumerate() { v.push(x.ok_or(format!("wire {} is not determined by the inputs", i))?); }
    for [a, b, c] in &r.cons { let lin = |l: &RLin| l.iter().fold(BigInt::from(0), |k, (i, f)| k + f * &v[*i]); if emod(&(lin(a) * lin(b) - lin(c)), p) != BigInt::from(0) { return Err("a constraint fails for the only candidate".into()); } }
    Ok(v)
}
struct Case { src: String, body: Vec<S>, inputs: Vec<(String, BigInt)>, signals: usize, n: usize, prime: usize }
fn make(r: Rng) -> Case {
    let mut g = G { r, k: 0, decls: vec![], known: vec!["x".into(), "y".into()], arrs: vec!["z".into()], param: 0 };
    g.param = g.r.us(3);
    let mut body = vec![];
    for _ in 0..2 + g.r.us(5) {
        let (mut n, mut a) = (vec![], vec![]);
        let s = g.stmt(&[], 2, &mut n, &mut a);
        body.push(s);
        g.known.append(&mut n);
        g.arrs.append(&mut a);
    }
    let mut o = String::from("pragma circom 2.2.0;\n");
    let first = g.r.chance(1, 2);
    if first { o += LIB; }
    o += "template Main(n) {\nsignal input x; signal input y; signal input z[2];\n";
    for (n, d) in &g.decls { o += &format!("signal {}{};\n", n, d.iter().map(|x| format!("[{}]", x)).collect::<String>()); }
    for s in &body { show_s(s, &mut o); }
    o += "}\n";
    if !first { o += LIB; }
    o += &format!("component main = Main({});\n", g.param);
    let prime = g.r.us(8);
    let p = big(PRIMES[prime].1);
    let inputs = ["x", "y", "z[0]", "z[1]"].iter().map(|s| (s.to_string(), g.r.elem(&p))).collect();
    Case { src: o, body, inputs, signals: 4 + g.decls.iter().map(|x| x.1.iter().product::<usize>()).sum::<usize>(), n: g.param, prime }
}
// components that the expanded body creates in parallel
fn parallels(s: &Statement) -> usize {
    match s {
        Statement::Block { stmts, .. } => stmts.iter().map(parallels).sum(), Statement::InitializationBlock { initializations, .. } => initializations.iter().map(parallels).sum(),
        Statement::IfThenElse { if_case, else_case, .. } => parallels(if_case) + else_case.as_ref().map_or(0, |e| parallels(e)), Statement::While { stmt, .. } => parallels(stmt),
        Statement::Substitution { rhe, .. } => rhe.is_parallel() as usize, _ => 0,
    }
}
fn check(c: &Case, dir: &str) -> Result<bool, String> {
    let out = compile(&c.src, c.prime, 0, dir)?;
    let (archive, _) = parser::run_parser(format!("{}/e2e.circom", dir), "2.2.3", vec![], &big(PRIMES[c.prime].1), false).map_err(|_| "did not parse again".to_string())?;
    let n = parallels(archive.get_template_data("Main").get_body());
    ensure(n == c.src.matches("parallel ").count(), &format!("{} components are parallel in the expansion", n))?;
    let r = read_r1cs(&out.r1cs)?;
    let sym = read_sym(&out.sym)?;
    let mut ev = Ev { p: r.prime.clone(), env: c.inputs.iter().cloned().collect(), loops: HashMap::new(), n: c.n, wires: 1 + c.signals, cons: 0 };
    for s in &c.body { ev.s(s); }
    let mut w: Vec<Option<BigInt>> = vec![None; r.wires];
    w[0] = Some(BigInt::from(1));
    let at: HashMap<&str, usize> = sym.iter().filter(|l| l.wire >= 0).map(|l| (l.name.as_str(), l.wire as usize)).collect();
    let names: std::collections::HashSet<&str> = sym.iter().map(|l| l.name.as_str()).collect();
    ensure(names.len() == sym.len(), "two signals have the same name")?;
    for (n, v) in &c.inputs { w[*at.get(format!("main.{}", n).as_str()).ok_or(format!("no input {}", n))?] = Some(v.clone()); }
    ensure(r.wires == ev.wires, &format!("{} wires, the plain statements have {}", r.wires, ev.wires))?;
    ensure(r.cons.len() == ev.cons, &format!("{} constraints, the plain statements have {}", r.cons.len(), ev.cons))?;
    let v = solve(&r, w)?;
    for (n, x) in &ev.env { let i = at.get(format!("main.{}", n).as_str()).ok_or(format!("no signal {}", n))?; ensure(v[*i] == *x, &format!("{} is {} for inputs {:?}, by definition it is {}", n, v[*i], c.inputs, x))?; }
    Ok(ev.wires > 1 + c.signals)
}
// misplaced or malformed, as statements of Main
const BAD: [&str; 66] = [
    "s <== Mul(1)(x);", "s <== Mul(1)(x, y, x);", "s <== Mul(1)();", "s <== Mul(1)(a <== x);", "s <== Mul(1)(a <== x, c <== y);", "s <== Mul(1)(a <== x, a <== y);", "s <== Mul(1)(a <== x, b <== y, c <== x);", "s <== Mul(1)(a <-- x, b <== y);",
    "s <== Mul(1)(a <== x, b <-- y);", "s <== Mul(1)(a = x, b <== y);", "s <== Nothing(1)(x);", "s <== Two(1)(x, y);", "s <== Sink(1)(x);", "s <-- Mul(1)(x, y);", "(s, t) <-- Two(1)(x, y);", "s <== 1 + One(1)(x);", "s <== One(1)(x) * 2;", "s <== -One(1)(x);",
    "s <== One(1)(1 + One(2)(x));", "s <== One(One(1)(x))(x);", "s <== parallel One(One(1)(x))(x);", "s <== parallel One(1)(1 + One(1)(x));", "s <== z[One(1)(x)];", "z[One(1)(x)] <== x;", "One(1)(x) <== s;", "if (One(1)(x) == 1) { s <== x; }", "while (One(1)(x) == 1) { s <== x; }",
    "log(One(1)(x));", "log(\"a\", 1 + One(1)(x));", "assert(One(1)(x) == 1);", "One(1)(x) === s;", "s === One(1)(x);", "var q[One(1)(x)];", "signal q[One(1)(x)];", "s <== n == 1 ? One(1)(x) : x;", "s <== One(1)(x) == 1 ? x : y;", "s <== f(One(1)(x));", "var q = f(One(1)(x));",
    "(s, t) <== Two(1)(x);", "(s, t) <== Two(1)((x, y));", "(s, t, u) <== Two(1)(x, y);", "(s, t) <== (x, y, x);", "(s, t, u) <== (x, y);", "(s, t) <== x;", "s <== (x, y);", "s <== ((x, y), x);", "(s, s + 1) <== (x, y);", "(s, 1) <== (x, y);", "s <== x + (x, y);", "s <== (x, y) * 2;",
    "s <== z[(0, 1)];", "z[(0, 1)] <== x;", "if ((x, y) == 1) { s <== x; }", "while ((0, 1) == 1) { s <== x; }", "assert((x, y) == 1);", "(s, t) === (x, y);", "s === (x, y);", "var q[(1, 2)];", "signal q[(1, 2)];", "s <== f((x, y));", "s <== One((1, 2))(x);", "component k = One((1, 2));", "for (var i = 0; i < 2; i++) { s <== Mul(1)(x); }", "if (n == 1) { s <== 1 + One(1)(x); } else { s <== x; }", "if (n == 1) { s <== x; } else { if (n == 2) { (s, t) <== (x, x, x); } }", "{ { s <== One(1)(One(1)(x, y)); } }",
];
// elsewhere: (definitions, instance)
const BAD_AT: [(&str, &str); 16] = [
    ("", "Main(One(1)(2))"), ("", "(Main(1), Main(2))"), ("", "Main((1, 2))"), ("", "parallel Main(1)(2)"), ("", "Main(1)(1, 2, [1, 2])"), ("bus Bu(n) { signal x[One(1)(1)]; }", "Main(1)"), ("bus Bu(n) { signal x[(1, 2)]; }", "Main(1)"), ("bus Bu(n) { Bi(One(1)(n)) x; } bus Bi(n) { signal x; }", "Main(1)"),
    ("function g(n) { return One(1)(n); }", "Main(1)"), ("function g(n) { var q = One(1)(n); return q; }", "Main(1)"), ("function g(n) { return (n, n); }", "Main(1)"), ("function g(n) { if ((n, n) == 1) { return n; } return 1; }", "Main(1)"), ("function g(n) { var q = 1; (q, n) = (1, 2, 3); return q; }", "Main(1)"),
    ("function g(n) { while (n == 1) { var q = One(1)(n); } return 1; }", "Main(1)"), ("function g(n) { return n + (n, n); }", "Main(1)"), ("function g(n) { assert(One(1)(n) == 1); return 1; }", "Main(1)"),
];
fn bad_program(v: usize, r: &mut Rng) -> String {
    let (extra, inst, body) = if v < BAD.len() { ("", "Main(1)", BAD[v]) } else { let (a, b) = BAD_AT[v - BAD.len()]; (a, b, "s <== x;") };
    let mut body = body.to_string();
    for _ in 0..r.us(3) { body = match r.us(3) { 0 if !body.contains("signal q") => format!("for (var j{} = 0; j{} < 1; j{}++) {{ {} }}", body.len(), body.len(), body.len(), body), 1 => format!("if (n == 1) {{ {} }}", body), _ => format!("{{ {} }}", body) }; }
    format!("pragma circom 2.2.0;\n{}{}\nfunction f(n) {{ return n; }}\ntemplate Main(n) {{\nsignal input x; signal input y; signal input z[2];\nsignal s; signal t; signal u;\nsignal l; l <== Mul(2)(x, One(1)(y));\n{}\n}}\ncomponent main = {};\n", LIB, extra, body, inst)
}
fn main() {
    let mut h = Harness::new("random templates with anonymous components (positional, named in any order, parallel, nested, in arrays, tuples, loops, branches), tuples with nested and ignored elements and long texts in logs: the r1cs at --O0 has exactly the signals and constraints of the plain statements and is solved by exactly the values defined; misplaced or malformed uses are rejected with a report");
    let dir = h.scratch.clone();
    let mut i = 0usize;
    while h.time_left() {
        let seed = h.rng.next();
        i += 1;
        if i % 4 == 0 {
            let v = (i / 4) % (BAD.len() + BAD_AT.len());
            let src = bad_program(v, &mut Rng::new(seed));
            let d = dir.clone();
            h.count("misplaced");
            h.case(&format!("misplaced {}", v), src.clone(), move || match compile(&src, 0, 0, &d) { Ok(_) => Err("accepted".into()), Err(_) => Ok(true) });
        } else {
            let c = make(Rng::new(seed));
            let d = dir.clone();
            h.count("expanded");
            h.case("expansion", format!("{}// inputs {:?}, prime {}", c.src, c.inputs, PRIMES[c.prime].0), move || check(&c, &d));
        }
    }
    h.finish();
}
