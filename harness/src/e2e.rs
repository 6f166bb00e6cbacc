// Whole compilations, in process: random straight-line programs made of templates, arrays, buses and
// subcomponents, with an independent account of their signals, constraints and honest witness.
use crate::*;
use std::collections::{BTreeMap, HashMap};
pub struct Bus { pub fields: Vec<(String, Vec<usize>, Option<usize>)> }
#[derive(Clone)]
pub struct Wire { pub kind: u8, pub name: String, pub dims: Vec<usize>, pub bus: Option<usize> } // 0 input, 1 output, 2 intermediate
pub struct Sub { pub name: String, pub dims: Vec<usize>, pub to: usize }
pub type Lin = Vec<(i64, Option<String>)>;
/// target <== a*b + c  (as a check, target === a*b + c; as a hint, target <-- a*b + c; no target: 0 === a*b + c)
pub struct Stmt { pub target: String, pub a: Lin, pub b: Lin, pub c: Lin, pub check: bool, pub hint: bool }
pub struct Tmpl { pub wires: Vec<Wire>, pub subs: Vec<Sub>, pub stmts: Vec<Stmt>, pub custom: bool }
pub struct Prog { pub buses: Vec<Bus>, pub tm: Vec<Tmpl>, pub public: Vec<String>, pub prime: usize }
/// A*B - C over global signal names ("" is the constant)
pub type Form = BTreeMap<String, BigInt>;
pub struct Out { pub sym: String, pub r1cs: Vec<u8> }

pub fn cells(name: &str, dims: &[usize]) -> Vec<String> {
    if dims.is_empty() { return vec![name.to_string()]; }
    (0..dims[0]).flat_map(|i| cells(&format!("{}[{}]", name, i), &dims[1..])).collect()
}
fn brackets(dims: &[usize]) -> String { dims.iter().map(|d| format!("[{}]", d)).collect() }
fn dims(r: &mut Rng) -> Vec<usize> { (0..[0, 0, 0, 1, 1, 2][r.us(6)]).map(|_| 1 + r.us(3)).collect() }
impl Prog {
    pub fn p(&self) -> BigInt { big(PRIMES[self.prime].1) }
    fn bus_cells(&self, b: usize, name: &str, dims: &[usize]) -> Vec<String> {
        let mut v = vec![];
        for c in cells(name, dims) {
            for (f, d, k) in &self.buses[b].fields {
                let n = format!("{}.{}", c, f);
                match k { Some(k) => v.extend(self.bus_cells(*k, &n, d)), None => v.extend(cells(&n, d)) }
            }
        }
        v
    }
    pub fn wire_cells(&self, w: &Wire) -> Vec<String> { match w.bus { Some(b) => self.bus_cells(b, &w.name, &w.dims), None => cells(&w.name, &w.dims) } }
    pub fn kind_cells(&self, t: usize, kind: u8) -> Vec<String> { self.tm[t].wires.iter().filter(|w| w.kind == kind).flat_map(|w| self.wire_cells(w)).collect() }
    pub fn text(&self) -> String {
        let mut s = "pragma circom 2.2.0;\n".to_string();
        if self.tm.iter().any(|t| t.custom) { s += "pragma custom_templates;\n"; }
        for (i, b) in self.buses.iter().enumerate() {
            s += &format!("bus B{}() {{\n", i);
            for (f, d, k) in &b.fields {
                match k { Some(k) => s += &format!("  B{}() {}{};\n", k, f, brackets(d)), None => s += &format!("  signal {}{};\n", f, brackets(d)) }
            }
            s += "}\n";
        }
        let lin = |l: &Lin| -> String { if l.is_empty() { "0".into() } else { l.iter().map(|(c, n)| match n { Some(n) => format!("({})*{}", c, n), None => format!("({})", c) }).collect::<Vec<_>>().join(" + ") } };
        for (i, t) in self.tm.iter().enumerate() {
            s += &format!("template {}T{}() {{\n", if t.custom { "custom " } else { "" }, i);
            for w in &t.wires {
                let k = ["input ", "output ", ""][w.kind as usize];
                match w.bus { Some(b) => s += &format!("  {}B{}() {}{};\n", k, b, w.name, brackets(&w.dims)), None => s += &format!("  signal {}{}{};\n", k, w.name, brackets(&w.dims)) }
            }
            for c in &t.subs { s += &format!("  component {}{};\n", c.name, brackets(&c.dims)); }
            for c in &t.subs { for n in cells(&c.name, &c.dims) { s += &format!("  {} = T{}();\n", n, c.to); } }
            for x in &t.stmts { s += &format!("  {} {} ({})*({}) + {};\n", if x.target.is_empty() { "0" } else { &x.target }, if x.check { "===" } else if x.hint { "<--" } else { "<==" }, lin(&x.a), lin(&x.b), lin(&x.c)); }
            s += "}\n";
        }
        s += &format!("component main{} = T{}();\n", if self.public.is_empty() { "".into() } else { format!(" {{public [{}]}}", self.public.join(",")) }, self.tm.len() - 1);
        s
    }
    /// own signals in the order of their numbers
    fn own(&self, t: usize, main: bool) -> Vec<String> {
        let mut v = self.kind_cells(t, 1);
        for public in [true, false] {
            for w in self.tm[t].wires.iter().filter(|w| w.kind == 0 && (main && self.public.contains(&w.name)) == public) { v.extend(self.wire_cells(w)); }
        }
        v.extend(self.kind_cells(t, 2));
        v
    }
    /// instances of subcomponents in the order of their ranges
    pub fn kids(&self, t: usize) -> Vec<(String, usize)> {
        let mut v: Vec<(&str, Vec<usize>, String, usize)> = vec![];
        for c in &self.tm[t].subs {
            let mut ix: Vec<Vec<usize>> = vec![vec![]];
            for d in &c.dims { ix = ix.into_iter().flat_map(|x| (0..*d).map(move |i| { let mut y = x.clone(); y.push(i); y })).collect(); }
            for i in ix { let n = format!("{}{}", c.name, brackets(&i)); v.push((&c.name, i, n, c.to)); }
        }
        v.sort();
        v.into_iter().map(|x| (x.2, x.3)).collect()
    }
    /// (name, template) of signals 1, 2, 3, ...
    pub fn layout(&self) -> Vec<(String, usize)> { let mut v = vec![]; self.lay(self.tm.len() - 1, "main", true, &mut v); v }
    fn lay(&self, t: usize, path: &str, main: bool, v: &mut Vec<(String, usize)>) {
        for n in self.own(t, main) { v.push((format!("{}.{}", path, n), t)); }
        for (n, k) in self.kids(t) { self.lay(k, &format!("{}.{}", path, n), false, v); }
    }
    fn global(path: &str, n: &str) -> String { format!("{}.{}", path, n) }
    fn form(&self, path: &str, l: &Lin) -> Form {
        let p = self.p();
        let mut f = Form::new();
        for (c, n) in l { let k = n.as_ref().map_or(String::new(), |n| Self::global(path, n)); let e = f.entry(k).or_default(); *e = emod(&(e.clone() + BigInt::from(*c)), &p); }
        f.retain(|_, v| *v != BigInt::from(0));
        f
    }
    /// every constraint of the circuit as the polynomial  a*b + c - target
    pub fn polys(&self) -> Vec<Poly> { let mut v = vec![]; self.pol(self.tm.len() - 1, "main", &mut v); v }
    fn pol(&self, t: usize, path: &str, v: &mut Vec<Poly>) {
        let p = self.p();
        for x in &self.tm[t].stmts {
            if x.hint { continue; }
            let mut c = x.c.clone();
            if !x.target.is_empty() { c.push((-1, Some(x.target.clone()))); }
            let q = poly(&self.form(path, &x.a), &self.form(path, &x.b), &self.form(path, &c), &p);
            if !q.is_empty() { v.push(monic(q, &p)); }
        }
        for (n, k) in self.kids(t) { self.pol(k, &format!("{}.{}", path, n), v); }
    }
    /// values of all signals given the inputs of main
    pub fn witness(&self, input: &mut dyn FnMut() -> BigInt) -> HashMap<String, BigInt> {
        let mut m: HashMap<String, BigInt> = HashMap::new();
        m.insert(String::new(), BigInt::from(1));
        let top = self.tm.len() - 1;
        for n in self.kind_cells(top, 0) { m.insert(Self::global("main", &n), input()); }
        self.exec(top, "main", &mut m);
        m
    }
    fn exec(&self, t: usize, path: &str, m: &mut HashMap<String, BigInt>) {
        let p = self.p();
        let ev = |l: &Form, m: &HashMap<String, BigInt>| emod(&l.iter().map(|(k, c)| c * &m[k]).fold(BigInt::from(0), |a, b| a + b), &p);
        let mut waiting: HashMap<String, (usize, usize)> = HashMap::new(); // component -> (template, inputs missing)
        for (n, k) in self.kids(t) { let c = self.kind_cells(k, 0).len(); if c == 0 { self.exec(k, &Self::global(path, &n), m); } else { waiting.insert(n, (k, c)); } }
        for x in &self.tm[t].stmts {
            if x.check { continue; }
            let v = emod(&(ev(&self.form(path, &x.a), m) * ev(&self.form(path, &x.b), m) + ev(&self.form(path, &x.c), m)), &p);
            m.insert(Self::global(path, &x.target), v);
            let comp = x.target.split('.').next().unwrap().to_string();
            if let Some(w) = waiting.get_mut(&comp) { w.1 -= 1; if w.1 == 0 { let k = w.0; self.exec(k, &Self::global(path, &comp), m); } }
        }
    }
}
pub type Poly = BTreeMap<Vec<String>, BigInt>;
/// a*b + c as a polynomial
pub fn poly(a: &Form, b: &Form, c: &Form, p: &BigInt) -> Poly {
    let mut q = Poly::new();
    let mut add = |mut k: Vec<String>, v: BigInt| { k.retain(|x| !x.is_empty()); k.sort(); let e = q.entry(k).or_default(); *e = emod(&(e.clone() + v), p); };
    for (x, u) in a { for (y, v) in b { add(vec![x.clone(), y.clone()], u * v); } }
    for (x, u) in c { add(vec![x.clone()], u.clone()); }
    q.retain(|_, v| *v != BigInt::from(0));
    q
}
pub fn inv(a: &BigInt, p: &BigInt) -> BigInt { a.modpow(&(p - BigInt::from(2)), p) }
pub fn monic(q: Poly, p: &BigInt) -> Poly {
    let i = match q.values().next() { Some(v) => inv(v, p), None => return q };
    q.into_iter().map(|(k, v)| { let v = emod(&(v * &i), p); (k, v) }).collect()
}
pub fn gen(r: &mut Rng) -> Prog {
    let mut g = Prog { buses: vec![], tm: vec![], public: vec![], prime: r.us(8) };
    for i in 0..r.us(3) {
        let f = (0..1 + r.us(3)).map(|j| (format!("f{}", [2, 0, 1][j]), if r.chance(1, 3) { vec![1 + r.us(2)] } else { vec![] }, if i > 0 && r.chance(1, 3) { Some(r.us(i)) } else { None })).collect();
        g.buses.push(Bus { fields: f });
    }
    let names = ["b", "a", "in", "out", "x", "c", "z", "aa", "a0"];
    let n = 1 + r.us(4);
    for i in 0..n {
        let mut ns: Vec<&str> = names.to_vec();
        r.shuffle(&mut ns);
        let mut t = Tmpl { wires: vec![], subs: vec![], stmts: vec![], custom: i + 1 < n && r.chance(1, 6) };
        let bare = i > 0 && !t.custom && r.chance(1, 8); // no signals of its own
        for _ in 0..if bare { 0 } else { 1 + r.us(4) } {
            let kind = [0, 0, 1, 2, 1][r.us(5)];
            let bus = if !g.buses.is_empty() && r.chance(1, 4) { Some(r.us(g.buses.len())) } else { None };
            let d = if r.chance(1, 12) { vec![11] } else if bus.is_some() && r.chance(1, 2) { vec![] } else { dims(r) };
            t.wires.push(Wire { kind, name: ns.pop().unwrap().into(), dims: d, bus });
        }
        if !bare && t.wires.iter().all(|w| w.kind != 1) { t.wires.push(Wire { kind: 1, name: ns.pop().unwrap().into(), dims: vec![], bus: None }); }
        if i > 0 && !t.custom {
            for _ in 0..if bare { 1 + r.us(3) } else { r.us(3) } { if let Some(nm) = ns.pop() { t.subs.push(Sub { name: nm.into(), dims: if r.chance(1, 2) { vec![] } else if r.chance(1, 8) { vec![11] } else if r.chance(1, 4) { vec![1 + r.us(2), 2] } else { vec![1 + r.us(3)] }, to: r.us(i) }); } }
        }
        g.tm.push(t);
        // statements: targets in random order, each from what is known by then
        let mut known: Vec<String> = g.kind_cells(i, 0);
        let mut todo: Vec<(String, Option<String>)> = g.kind_cells(i, 1).into_iter().chain(g.kind_cells(i, 2)).map(|x| (x, None)).collect();
        let mut missing: BTreeMap<String, (usize, usize)> = BTreeMap::new();
        for (c, k) in g.kids(i) {
            let ins = g.kind_cells(k, 0);
            if ins.is_empty() { for o in g.kind_cells(k, 1) { known.push(format!("{}.{}", c, o)); } }
            missing.insert(c.clone(), (k, ins.len()));
            for x in ins { todo.push((format!("{}.{}", c, x), Some(c.clone()))); }
        }
        r.shuffle(&mut todo);
        let co = |r: &mut Rng| -> i64 { [1, 1, 1, -1, -1, 2, 3, -2, 5, 256, 65537, -70000][r.us(12)] };
        for (x, c) in todo {
            let lin = |r: &mut Rng, k: usize| -> Lin { let mut l: Lin = vec![]; for _ in 0..k { if !known.is_empty() && r.chance(5, 6) { let v = r.pick(&known).clone(); if l.iter().all(|y| y.1.as_ref() != Some(&v)) { l.push((co(r), Some(v))); } } else { l.push((co(r), None)); } } l };
            // an equality, a linear constraint or a quadratic one
            let (a, b, cc) = match r.us(4) {
                0 if !known.is_empty() => { let v = r.pick(&known).clone(); (vec![], vec![], vec![(1, Some(v))]) }
                1 => { let k = r.us(4); (vec![], vec![], lin(r, k)) }
                _ => { let k = 1 + r.us(2); let a = lin(r, k); let b = lin(r, k); let c = lin(r, r.0 as usize % 3); (a, b, c) }
            };
            let custom = g.tm[i].custom;
            let hint = custom || r.chance(1, 6);
            // products that are zero: of a known equality and anything else
            let zero: Option<Stmt> = if !custom && r.chance(1, 4) {
                let f: Option<Lin> = if a.is_empty() && cc.len() == 1 && cc[0].1.is_some() { Some(vec![(1, Some(x.clone())), (-cc[0].0, cc[0].1.clone())]) }
                    else if a.is_empty() && cc.len() == 1 { Some(vec![(1, Some(x.clone())), (-cc[0].0, None)]) } else { None };
                f.map(|f| { let k = 1 + r.us(2); let o = lin(r, k); let (a, b) = if r.chance(1, 2) { (f, o) } else { (o, f) }; Stmt { target: String::new(), a, b, c: vec![], check: true, hint: false } })
            } else { None };
            g.tm[i].stmts.push(Stmt { target: x.clone(), a: a.clone(), b: b.clone(), c: cc.clone(), check: false, hint });
            if !custom && r.chance(1, if hint { 2 } else { 8 }) { g.tm[i].stmts.push(Stmt { target: x.clone(), a, b, c: cc, check: true, hint: false }); }
            if let Some(z) = zero { g.tm[i].stmts.push(z); }
            match c {
                None => known.push(x),
                Some(c) => { known.push(x); let e = missing.get_mut(&c).unwrap(); e.1 -= 1; if e.1 == 0 { let k = e.0; for o in g.kind_cells(k, 1) { known.push(format!("{}.{}", c, o)); } } }
            }
        }
    }
    for w in &g.tm[n - 1].wires { if w.kind == 0 && r.chance(1, 2) { g.public.push(w.name.clone()); } }
    g
}
/// compile with --O0 (0), --O1 (1) or --O2 (2)
pub fn compile(src: &str, prime: usize, mode: usize, dir: &str) -> Result<Out, String> {
    let f = format!("{}/e2e.circom", dir);
    std::fs::write(&f, src).map_err(|e| e.to_string())?;
    let (sym, r1cs) = (format!("{}/e2e.sym", dir), format!("{}/e2e.r1cs", dir));
    let _ = std::fs::remove_file(&sym);
    let _ = std::fs::remove_file(&r1cs);
    let (mut archive, _) = parser::run_parser(f, "2.2.3", vec![], &big(PRIMES[prime].1), false).map_err(|(_, e)| format!("did not parse: {:?}", e.iter().map(|x| x.get_message().clone()).collect::<Vec<_>>()))?;
    type_analysis::check_types::check_types(&mut archive).map_err(|e| format!("did not type check: {:?}", e.iter().map(|x| x.get_message().clone()).collect::<Vec<_>>()))?;
    let custom = archive.custom_gates;
    let c = constraint_generation::BuildConfig {
        no_rounds: if mode == 2 { usize::MAX } else { 0 }, flag_json_sub: false, json_substitutions: format!("{}/e2e_sub.json", dir), flag_s: mode == 1, flag_f: mode == 0, flag_p: false,
        flag_verbose: false, flag_old_heuristics: false, inspect_constraints: false, prime: PRIMES[prime].0.to_string(),
    };
    let (w, _) = constraint_generation::build_circuit(archive, c).map_err(|_| "did not build".to_string())?;
    w.r1cs(&r1cs, custom).map_err(|_| "no r1cs written".to_string())?;
    w.sym(&sym).map_err(|_| "no sym written".to_string())?;
    Ok(Out { sym: std::fs::read_to_string(&sym).map_err(|e| e.to_string())?, r1cs: std::fs::read(&r1cs).map_err(|e| e.to_string())? })
}
pub struct SymLine { pub label: usize, pub wire: i64, pub node: i64, pub name: String }
pub fn read_sym(s: &str) -> Result<Vec<SymLine>, String> {
    let mut v = vec![];
    for l in s.lines() {
        let f: Vec<&str> = l.splitn(4, ',').collect();
        if f.len() != 4 { return Err(format!("malformed line {:?} in the .sym file", l)); }
        let n = |x: &str| x.parse::<i64>().map_err(|_| format!("malformed line {:?} in the .sym file", l));
        v.push(SymLine { label: n(f[0])? as usize, wire: n(f[1])?, node: n(f[2])?, name: f[3].into() });
    }
    Ok(v)
}
pub type RLin = Vec<(usize, BigInt)>;
#[derive(Default)]
pub struct R1cs { pub prime: BigInt, pub wires: usize, pub outs: usize, pub pubs: usize, pub privs: usize, pub labels: usize, pub cons: Vec<[RLin; 3]>, pub map: Vec<usize>,
    pub gates: Vec<(String, Vec<BigInt>)>, pub applied: Vec<(usize, Vec<usize>)>, pub version: usize, pub field_size: usize }
struct Rd<'a> { d: &'a [u8], i: usize }
impl<'a> Rd<'a> {
    fn bytes(&mut self, n: usize) -> Result<&'a [u8], String> { if n > self.d.len() - self.i { return Err("the r1cs file ends early".into()); } let s = &self.d[self.i..self.i + n]; self.i += n; Ok(s) }
    fn int(&mut self, n: usize) -> Result<usize, String> { let b = self.bytes(n)?; let mut v = 0usize; for x in b.iter().rev() { v = v.checked_mul(256).ok_or("number too large")? + *x as usize; } Ok(v) }
    fn big(&mut self, n: usize) -> Result<BigInt, String> { Ok(BigInt::from_bytes_le(num_bigint::Sign::Plus, self.bytes(n)?)) }
}
/// decode an .r1cs file from its format alone
pub fn read_r1cs(d: &[u8]) -> Result<R1cs, String> {
    let mut r = Rd { d, i: 0 };
    let mut o = R1cs::default();
    if r.bytes(4)? != b"r1cs" { return Err("wrong magic".into()); }
    o.version = r.int(4)?;
    if o.version != 1 { return Err(format!("version is {}", o.version)); }
    let n = r.int(4)?;
    let mut at: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
    for _ in 0..n { let t = r.int(4)?; let s = r.int(8)?; if at.insert(t, (r.i, s)).is_some() { return Err(format!("two sections of type {}", t)); } r.bytes(s)?; }
    if r.i != d.len() { return Err(format!("{} bytes after the last section", d.len() - r.i)); }
    let sec = |t: usize| -> Result<Rd, String> { let (i, s) = at.get(&t).ok_or(format!("no section of type {}", t))?; Ok(Rd { d: &d[..i + s], i: *i }) };
    let end = |r: &Rd, t: usize| if r.i == r.d.len() { Ok(()) } else { Err(format!("section {} is {} bytes longer than its contents", t, r.d.len() - r.i)) };
    let mut h = sec(1)?;
    o.field_size = h.int(4)?;
    o.prime = h.big(o.field_size)?;
    o.wires = h.int(4)?; o.outs = h.int(4)?; o.pubs = h.int(4)?; o.privs = h.int(4)?; o.labels = h.int(8)?;
    let m = h.int(4)?;
    end(&h, 1)?;
    let mut c = sec(2)?;
    for _ in 0..m {
        let mut k: [RLin; 3] = Default::default();
        for l in k.iter_mut() {
            for _ in 0..c.int(4)? { let w = c.int(4)?; let v = c.big(o.field_size)?; if v >= o.prime { return Err("a coefficient is not below the prime".into()); } if l.iter().any(|x: &(usize, BigInt)| x.0 == w) { return Err(format!("wire {} occurs twice in a linear combination", w)); } l.push((w, v)); }
        }
        o.cons.push(k);
    }
    end(&c, 2)?;
    let mut w = sec(3)?;
    for _ in 0..o.wires { o.map.push(w.int(8)?); }
    end(&w, 3)?;
    if n > 3 {
        let mut u = sec(4)?;
        for _ in 0..u.int(4)? {
            let mut name = vec![];
            loop { let b = u.int(1)?; if b == 0 { break; } name.push(b as u8); }
            let mut ps = vec![];
            for _ in 0..u.int(4)? { ps.push(u.big(o.field_size)?); }
            o.gates.push((String::from_utf8_lossy(&name).into(), ps));
        }
        end(&u, 4)?;
        let mut a = sec(5)?;
        for _ in 0..a.int(4)? { let g = a.int(4)?; let mut v = vec![]; for _ in 0..a.int(4)? { v.push(a.int(8)?); } o.applied.push((g, v)); }
        end(&a, 5)?;
    }
    Ok(o)
}
