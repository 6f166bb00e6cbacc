// What the compiler takes to be known holds for every input: random templates whose variables are changed under conditions
// and loops that depend on inputs are compiled; whenever the compiler accepts a constraint, the values that the program
// computes for random inputs satisfy it. Constraints, components, declarations and sizes that depend on inputs are rejected.
use harness::*;
use harness::e2e::*;
use num_bigint::BigInt;
use std::collections::HashMap;
#[derive(Clone)]
enum E { N(i64), V(String), Ix(String, Box<E>), In(String), Op(&'static str, Box<E>, Box<E>), Cond(Box<E>, Box<E>, Box<E>), Call(usize, Vec<E>), Not(Box<E>) }
#[derive(Clone)]
enum S { Set(String, E), SetIx(String, E, E), If(E, Vec<S>, Option<Vec<S>>), Loop(String, String, E, Vec<S>), Var(String, E), Arr(String, Vec<E>), Block(Vec<S>), Return(E), All(String, String) }
struct Fun { params: usize, body: Vec<S> }
struct G { r: Rng, k: usize, vars: Vec<String>, arrs: Vec<String>, ro: Vec<String>, ins: bool, funs: Vec<usize>, in_fun: bool }
impl G {
    fn fresh(&mut self, p: &str) -> String { self.k += 1; format!("{}{}", p, self.k) }
    fn small(&mut self) -> E { // 0..=2
        match self.r.us(4) { 0 | 1 => E::N(self.r.us(3) as i64), 2 if self.ins => E::In("i".into()), _ => E::Cond(Box::new(self.cond(1)), Box::new(E::N(self.r.us(3) as i64)), Box::new(E::N(self.r.us(3) as i64))) }
    }
    fn expr(&mut self, d: usize) -> E {
        let b = |e: E| Box::new(e);
        match self.r.us(if d == 0 { 4 } else { 11 }) {
            0 => E::N(self.r.us(4) as i64), 1 | 2 => { let v: Vec<String> = self.vars.iter().chain(&self.ro).cloned().collect(); E::V(self.r.pick(&v).clone()) }
            3 => if self.ins && self.r.chance(1, 2) { E::In(if self.r.chance(1, 2) { "x".into() } else { "i".into() }) } else { E::N(1) },
            4 | 5 => { let a = self.r.pick(&self.arrs.clone()).clone(); E::Ix(a, b(self.small())) }
            6 => E::Op("+", b(self.expr(d - 1)), b(self.expr(d - 1))), 7 => E::Op(if self.r.chance(1, 2) { "-" } else { "*" }, b(self.expr(d - 1)), b(self.expr(d - 1))),
            8 => E::Cond(b(self.cond(d - 1)), b(self.expr(d - 1)), b(self.expr(d - 1))),
            9 if !self.funs.is_empty() => { let f = self.r.us(self.funs.len()); let n = self.funs[f]; E::Call(f, (0..n).map(|_| self.expr(d - 1)).collect()) }
            _ => self.cond(d - 1),
        }
    }
    fn cond(&mut self, d: usize) -> E {
        let b = |e: E| Box::new(e);
        match self.r.us(6) {
            0 if d > 0 => E::Op(if self.r.chance(1, 2) { "&&" } else { "||" }, b(self.cond(d - 1)), b(self.cond(d - 1))), 1 if d > 0 => E::Not(b(self.cond(d - 1))),
            2 => { let o = *self.r.pick(&["<", ">", "<=", ">=", "!="]); E::Op(o, b(self.expr(d.min(1))), b(E::N(self.r.us(3) as i64))) }
            _ => E::Op("==", b(self.expr(d.min(1))), b(E::N(self.r.us(2) as i64))),
        }
    }
    fn block(&mut self, d: usize, n: usize) -> Vec<S> { let (v, a) = (self.vars.len(), self.arrs.len()); let mut o = vec![]; for _ in 0..1 + self.r.us(n) { o.push(self.stmt(d)); } self.vars.truncate(v); self.arrs.truncate(a); o }
    fn stmt(&mut self, d: usize) -> S {
        match self.r.us(if d == 0 { 6 } else { 12 }) {
            0 | 1 | 2 => { let v = self.r.pick(&self.vars.clone()).clone(); S::Set(v, self.expr(2)) }
            3 => { let a = self.r.pick(&self.arrs.clone()).clone(); S::SetIx(a, self.small(), self.expr(1)) }
            4 => { let e = self.expr(1); if self.r.chance(1, 3) && !self.arrs.is_empty() { let (a, b) = (self.r.pick(&self.arrs.clone()).clone(), self.r.pick(&self.arrs.clone()).clone()); return S::All(a, b); } if self.r.chance(1, 4) { let v: Vec<E> = (0..3).map(|_| self.expr(1)).collect(); let n = self.fresh("a"); self.arrs.push(n.clone()); return S::Arr(n, v); }
                   let outer = self.vars.clone(); let n = if d < 2 && self.r.chance(1, 5) { self.r.pick(&outer).clone() } else { self.fresh("v") }; if outer.contains(&n) { return S::Block(vec![S::Var(n, E::N(7)), S::Set(outer[0].clone(), e)]); } self.vars.push(n.clone()); S::Var(n, e) }
            6 | 7 | 8 => { let c = self.cond(2); let a = self.block(d - 1, 3); let b = if self.r.chance(1, 2) { Some(self.block(d - 1, 3)) } else { None }; S::If(c, a, b) }
            9 | 10 => { let (k, m) = (self.fresh("k"), self.fresh("m")); let e = match self.r.us(3) { 0 => E::Op("+", Box::new(self.cond(1)), Box::new(E::N(self.r.us(4) as i64))), 1 if self.ins => E::In("x".into()), _ => E::N(self.r.us(5) as i64) }; self.ro.push(k.clone()); let b = self.block(d - 1, 4); self.ro.retain(|x| *x != k); S::Loop(k, m, e, b) }
            11 if self.in_fun => S::Return(self.expr(1)),
            _ => S::Block(self.block(d.saturating_sub(1), 3)),
        }
    }
}
fn show(e: &E) -> String {
    match e { E::N(n) => n.to_string(), E::V(v) | E::In(v) => v.clone(), E::Ix(a, i) => format!("{}[{}]", a, show(i)), E::Op(o, a, b) => format!("({} {} {})", show(a), o, show(b)), E::Cond(c, a, b) => format!("({} ? {} : {})", show(c), show(a), show(b)), E::Call(f, v) => format!("fun{}({})", f, v.iter().map(show).collect::<Vec<_>>().join(", ")), E::Not(a) => format!("(!{})", show(a)) }
}
fn shows(v: &[S]) -> String { let mut o = String::new(); for s in v { show_s(s, &mut o); } o }
fn show_s(s: &S, o: &mut String) {
    *o += &match s {
        S::Set(v, e) => format!("{} = {};\n", v, show(e)), S::SetIx(a, i, e) => format!("{}[{}] = {};\n", a, show(i), show(e)), S::All(a, b) => format!("{} = {};\n", a, b),
        S::If(c, a, b) => format!("if ({}) {{\n{}}}{}\n", show(c), shows(a), b.as_ref().map_or(String::new(), |b| format!(" else {{\n{}}}", shows(b)))),
        S::Loop(k, m, e, b) => format!("var {m} = {}; var {k} = 0;\nwhile ({k} < {m}) {{\n{}{k} = {k} + 1;\n}}\n", show(e), shows(b)),
        S::Var(v, e) => format!("var {} = {};\n", v, show(e)), S::Arr(v, e) => format!("var {}[3] = [{}];\n", v, e.iter().map(show).collect::<Vec<_>>().join(", ")), S::Block(b) => format!("{{\n{}}}\n", shows(b)), S::Return(e) => format!("return {};\n", show(e)),
    };
}
struct Ev<'a> { p: BigInt, ins: HashMap<String, BigInt>, funs: &'a [Fun], scopes: Vec<HashMap<String, Vec<BigInt>>>, steps: usize }
type R<T> = Option<T>; // None: too long, or an index out of range
impl<'a> Ev<'a> {
    fn get(&mut self, v: &str) -> &mut Vec<BigInt> { self.scopes.iter_mut().rev().find_map(|s| s.get_mut(v)).unwrap() }
    fn signed(&self, x: &BigInt) -> BigInt { if x > &(&self.p / 2) { x - &self.p } else { x.clone() } }
    fn ix(&mut self, e: &E) -> R<usize> { let i = self.e(e)?; if i < BigInt::from(3) { Some(i.to_bytes_le().1[0] as usize) } else { None } }
    fn e(&mut self, e: &E) -> R<BigInt> {
        let z = BigInt::from(0);
        let b = |x: bool| BigInt::from(x as u8);
        Some(match e {
            E::N(n) => BigInt::from(*n), E::V(v) => self.get(v)[0].clone(), E::In(v) => self.ins[v].clone(), E::Ix(a, i) => { let i = self.ix(i)?; self.get(a)[i].clone() }
            E::Not(a) => b(self.e(a)? == z),
            E::Cond(c, x, y) => { let (c, x, y) = (self.e(c)?, self.e(x)?, self.e(y)?); if c != z { x } else { y } }
            E::Call(f, v) => {
                let mut s = HashMap::new();
                for (i, x) in v.iter().enumerate() { s.insert(format!("p{}", i), vec![self.e(x)?]); }
                let old = std::mem::replace(&mut self.scopes, vec![s]);
                let fs = self.funs;
                let r = self.b(&fs[*f].body);
                self.scopes = old;
                r?.unwrap()
            }
            E::Op(o, x, y) => {
                let (x, y) = (self.e(x)?, self.e(y)?);
                let (a, c) = (self.signed(&x), self.signed(&y));
                match *o { "+" => emod(&(x + y), &self.p), "-" => emod(&(x - y), &self.p), "*" => emod(&(x * y), &self.p), "==" => b(x == y), "!=" => b(x != y), "<" => b(a < c), ">" => b(a > c), "<=" => b(a <= c), ">=" => b(a >= c), "&&" => b(x != z && y != z), _ => b(x != z || y != z) }
            }
        })
    }
    fn b(&mut self, v: &[S]) -> R<Option<BigInt>> { self.scopes.push(HashMap::new()); let r = self.seq(v); self.scopes.pop(); r }
    fn seq(&mut self, v: &[S]) -> R<Option<BigInt>> { for s in v { if let Some(x) = self.s(s)? { return Some(Some(x)); } } Some(None) }
    fn s(&mut self, s: &S) -> R<Option<BigInt>> {
        self.steps += 1;
        if self.steps > 20000 { return None; }
        match s {
            S::Set(v, e) => { let x = self.e(e)?; self.get(v)[0] = x; }
            S::SetIx(a, i, e) => { let x = self.e(e)?; let i = self.ix(i)?; self.get(a)[i] = x; }
            S::All(a, b) => { let x = self.get(b).clone(); *self.get(a) = x; }
            S::If(c, a, b) => { let c = self.e(c)?; if c != BigInt::from(0) { return self.b(a); } else if let Some(b) = b { return self.b(b); } }
            S::Loop(k, m, e, b) => {
                let n = self.e(e)?;
                let t = self.scopes.last_mut().unwrap();
                t.insert(m.clone(), vec![n.clone()]);
                t.insert(k.clone(), vec![BigInt::from(0)]);
                loop { let c = self.get(k)[0].clone(); if self.signed(&c) >= self.signed(&n) { break; } if let Some(r) = self.b(b)? { return Some(Some(r)); } self.get(k)[0] += 1; self.steps += 1; if self.steps > 20000 { return None; } }
            }
            S::Var(v, e) => { let x = self.e(e)?; self.scopes.last_mut().unwrap().insert(v.clone(), vec![x]); }
            S::Arr(v, e) => { let mut o = vec![]; for x in e { o.push(self.e(x)?); } self.scopes.last_mut().unwrap().insert(v.clone(), o); }
            S::Block(b) => return self.b(b),
            S::Return(e) => return Some(Some(self.e(e)?)),
        }
        Some(None)
    }
}
// variables that follow each other through a loop: the last one changes only after several iterations
fn chain(r: &mut Rng) -> (Vec<S>, String) {
    let n = 2 + r.us(5);
    let v = |i: usize| format!("c{}", i);
    let mut body = vec![];
    for i in (1..n).rev() {
        let set = S::Set(v(i), E::N(1));
        let c = E::Op("==", Box::new(E::V(v(i - 1))), Box::new(E::N(0)));
        body.push(match r.us(3) { 0 => S::If(c, vec![S::Set("d".into(), E::N(2))], Some(vec![set])), 1 => S::If(E::Not(Box::new(c)), vec![set], None), _ => S::Block(vec![S::If(E::Op("!=", Box::new(E::V(v(i - 1))), Box::new(E::N(0))), vec![set], None)]) });
    }
    body.push(S::Set(v(0), E::N(1)));
    if r.chance(1, 4) { r.shuffle(&mut body); }
    let mut o: Vec<S> = (0..n).map(|i| S::Var(v(i), E::N(0))).collect();
    o.push(S::Var("d".into(), E::N(0)));
    let l = S::Loop("kk".into(), "mm".into(), E::In("x".into()), body);
    o.push(match r.us(3) { 0 => S::If(E::Op("!=", Box::new(E::In("i".into())), Box::new(E::N(1))), vec![l], None), 1 => S::Loop("kl".into(), "ml".into(), E::N(1 + r.us(2) as i64), vec![l]), _ => l });
    (o, v(n - 1 - r.us(2)))
}
struct Case { src: String, body: Vec<S>, funs: Vec<Fun>, out: E, prime: usize, seed: u64 }
fn make(mut r: Rng) -> Case {
    let seed = r.next();
    let prime = r.us(8);
    let mut funs = vec![];
    let (body, out);
    if r.chance(1, 5) { let (b, v) = chain(&mut r); body = b; out = E::V(v); }
    else {
        let mut g = G { r, k: 0, vars: vec![], arrs: vec![], ro: vec![], ins: false, funs: vec![], in_fun: true };
        for _ in 0..g.r.us(3) {
            let n = 1 + g.r.us(2);
            g.vars = (0..n).map(|i| format!("p{}", i)).collect();
            g.arrs = vec!["fa".into()];
            g.vars.push("fv".into());
            let mut b = vec![S::Var("fv".into(), E::N(0)), S::Arr("fa".into(), vec![E::N(0), E::N(1), E::V("p0".into())])];
            b.append(&mut g.block(2, 4));
            g.vars.truncate(n + 1);
            g.arrs.truncate(1);
            b.push(S::Return(g.expr(1)));
            funs.push(Fun { params: n, body: b });
            g.funs.push(n);
        }
        g.in_fun = false;
        g.ins = true;
        g.vars = vec!["va".into(), "vb".into(), "vc".into()];
        g.arrs = vec!["aa".into()];
        let mut b = vec![S::Var("va".into(), E::N(0)), S::Var("vb".into(), E::N(0)), S::Var("vc".into(), E::N(1)), S::Arr("aa".into(), vec![E::N(0), E::N(1), E::N(0)])];
        b.append(&mut g.block(3, 6));
        body = b;
        out = match g.r.us(4) { 0 => E::Ix("aa".into(), Box::new(E::N(g.r.us(3) as i64))), 1 if !funs.is_empty() => E::Call(0, (0..funs[0].params).map(|_| E::V(["va", "vb", "vc"][g.r.us(3)].into())).collect()), _ => E::V(["va", "vb", "vc"][g.r.us(3)].into()) };
    }
    let mut src = String::from("pragma circom 2.1.0;\n");
    for (i, f) in funs.iter().enumerate() { src += &format!("function fun{}({}) {{\n{}}}\n", i, (0..f.params).map(|i| format!("p{}", i)).collect::<Vec<_>>().join(", "), shows(&f.body)); }
    src += &format!("template Main() {{\nsignal input x; signal input i; signal output y;\n{}y <== {};\n}}\ncomponent main = Main();\n", shows(&body), show(&out));
    Case { src, body, funs, out, prime, seed }
}
fn check(c: &Case, dir: &str) -> Result<bool, String> {
    let out = match compile(&c.src, c.prime, 0, dir) { Ok(o) => o, Err(e) => { if e.contains("parse") { return Err(e); } return Ok(false) } };
    let r = read_r1cs(&out.r1cs)?;
    let sym = read_sym(&out.sym)?;
    let at = |n: &str| sym.iter().find(|l| l.name == format!("main.{}", n)).map(|l| l.wire as usize).ok_or(format!("no signal {}", n));
    let mut rng = Rng::new(c.seed);
    let mut done = false;
    for x in 0..9 {
        let ins: HashMap<String, BigInt> = [("x".to_string(), BigInt::from(x)), ("i".to_string(), BigInt::from(rng.us(3)))].into_iter().collect();
        let mut ev = Ev { p: r.prime.clone(), ins: ins.clone(), funs: &c.funs, scopes: vec![HashMap::new()], steps: 0 };
        if ev.seq(&c.body).is_none() { continue; }
        let y = match ev.e(&c.out) { Some(y) => y, None => continue };
        let mut w = vec![BigInt::from(0); r.wires];
        w[0] = BigInt::from(1);
        w[at("x")?] = ins["x"].clone();
        w[at("i")?] = ins["i"].clone();
        w[at("y")?] = y.clone();
        let lin = |l: &RLin| l.iter().fold(BigInt::from(0), |k, (i, f)| k + f * &w[*i]);
        for [a, b, k] in &r.cons { if emod(&(lin(a) * lin(b) - lin(k)), &r.prime) != BigInt::from(0) { return Err(format!("for x = {}, i = {} the program computes y = {}, which violates the constraints", x, ins["i"], y)); } }
        done = true;
    }
    Ok(done)
}
// depends on the input x (u is computed from it): must be rejected wherever it stands
const BAD: [&str; 25] = [
    "if (u == 1) { t === x; }", "if (x == 1) { t === x; }", "if (u == 1) { t <-- x; } else { t === x; }", "if (u == 1) { if (n == 1) { t === x; } }", "while (u == 1) { t === x; u = 0; }", "for (var j = 0; j < u; j++) { t === j; }", "if (u == 1) { q[0] <== x; }", "if (u == 1) { k.v <== x; }",
    "if (u == 1) { signal z; }", "if (u == 1) { component z = One(); }", "var z[u];", "signal z[u];", "component z = Par(u);", "if (u == 1) { k = One(); }", "q[u] === x;", "t === q[u];", "q[u] <== x;", "t <== q[x];", "q[0] === q[u + 1];", "k.v <== q[u];",
    "if (w[0] == 1) { t === x; }", "if (w[n] == 1) { t === x; }", "while (w[2] == 1) { t === x; }", "if (g(u) == 1) { t === x; }", "if (u == 1 && n == 5) { t === x; } else { t === 1; }",
];
// how u gets to depend on x
const DEP: [&str; 13] = ["u = x;", "if (x == 1) { for (var h = 0; h < 2; h++) { u = 1; } }", "for (var h = 0; h < 2; h++) { if (x == 2) { for (var j = 0; j < 2; j++) { u = 2; } } }", "u = x + 0 * n;", "if (x == 1) { u = 1; }", "if (x == 1) { n = n; } else { u = 1; }", "while (u < x) { u++; }", "for (var i = 0; i < x; i++) { u = u + i; }", "u = g(x);", "u = x == 1 ? 1 : 0;", "var b = 0; for (var i = 0; i < 3; i++) { u = b; b = x; }", "var b = x; var e = 0; if (b == 2) { e = 1; } u = e;", "var b = 0; var e = 0; while (e < x) { u = b; if (b == 1) { u = 2; } b = 1; e++; }"];
fn bad_program(v: usize, d: usize, r: &mut Rng) -> String {
    let mut body = BAD[v].to_string();
    for _ in 0..r.us(2) { body = match r.us(3) { 0 if !body.contains("signal") && !body.contains("component") => format!("for (var j{} = 0; j{} < 1; j{}++) {{ {} }}", body.len(), body.len(), body.len(), body), 1 => format!("if (n == 0) {{ {} }}", body), _ => format!("{{ {} }}", body) }; }
    if body.contains("signal z") && !BAD[v].starts_with("if") { body = BAD[v].to_string(); }
    format!("pragma circom 2.1.0;\nfunction g(a) {{ if (a == 1) {{ return 1; }} return 0; }}\ntemplate One() {{ signal input v; signal output r; r <== v*v; }}\ntemplate Par(n) {{ signal input v; signal output r; r <== v*n; }}\ntemplate Main() {{\nsignal input x; signal q[3]; signal t; component k;\nvar n = 0; var u = 0; var w[3];\n{}\nw[0] = u; w[2] = u; w[n] = u;\n{}\n}}\ncomponent main = Main();\n", DEP[d], body)
}
fn main() {
    let mut h = Harness::new("random templates (variables, arrays, blocks, functions, conditions and loops that depend on inputs or not) ending in a constraint: when accepted, the values computed by an independent interpreter satisfy the constraints for nine input vectors; constraints, components, declarations and sizes that depend on inputs are rejected");
    let dir = h.scratch.clone();
    let mut i = 0usize;
    while h.time_left() {
        let seed = h.rng.next();
        i += 1;
        if i % 6 == 0 {
            let (v, e) = (h.rng.us(BAD.len()), h.rng.us(DEP.len()));
            let src = bad_program(v, e, &mut Rng::new(seed));
            let d = dir.clone();
            h.count("must be rejected");
            h.case(&format!("dependent {} {}", v, e), src.clone(), move || match compile(&src, 0, 0, &d) { Ok(_) => Err("accepted".into()), Err(e) => if e.contains("parse") { Err(e) } else { Ok(true) } });
        } else {
            let c = make(Rng::new(seed));
            let d = dir.clone();
            h.count("random");
            let mut acc = false;
            h.case("known values", format!("{}// prime {}", c.src, PRIMES[c.prime].0), || { let r = check(&c, &d); acc = matches!(r, Ok(true)); r });
            if acc { h.count("accepted"); }
        }
    }
    h.finish();
}
