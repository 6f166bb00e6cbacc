// Accepted programs obey the structural rules: random programs that obey all of them are accepted,
// the same programs with one rule broken somewhere (at any nesting depth) are rejected.
use harness::*;
use std::collections::BTreeSet;
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ctx { Fun, Tpl, Gate }
struct Slot<'a> { ctx: Ctx, in_loop: bool, depth: usize, x: &'a str, arr: &'a str, params: &'a [String] }
// one broken rule, as a statement for the given place (None: the place does not suit)
const N_BODY: usize = 62;
fn broken(v: usize, s: &Slot) -> Option<String> {
    let (fun, tpl, gate) = (s.ctx == Ctx::Fun, s.ctx == Ctx::Tpl, s.ctx == Ctx::Gate);
    let (x, arr) = (s.x, s.arr);
    let when = |c: bool, t: String| if c { Some(t) } else { None };
    match v {
        // functions contain nothing of a circuit
        0 => when(fun, "signal zs;".into()), 1 => when(fun, "signal input zs;".into()), 2 => when(fun, "component zc = Leaf(2);".into()), 3 => when(fun, "Pair(2) zb;".into()),
        4 => when(fun, format!("{x} <== 1;")), 5 => when(fun, format!("{x} <-- 1;")), 6 => when(fun, format!("{x} === 1;")), 7 => when(fun, format!("{x} = Leaf(2);")),
        8 => when(fun, format!("{x} = {x}.out;")), 9 => when(fun, format!("log({x}.t);")), 10 => when(fun, format!("1 ==> {x};")), 11 => when(fun, format!("{x} = 1 + {arr}[{x}.t];")),
        // no return in a template
        12 => when(!fun, "return 1;".into()), 13 => when(!fun, format!("if ({x} == 1) {{ return {x}; }}")), 14 => when(!fun, format!("while ({x} < 1) {{ {x}++; return 1; }}")),
        // nothing is declared in a loop
        15 => when(tpl && s.in_loop, "signal zs;".into()), 16 => when(tpl && s.in_loop, "component zc;".into()), 17 => when(tpl && s.in_loop, "Pair(2) zb;".into()),
        18 => when(tpl && s.in_loop, "signal output zs[2];".into()), 19 => when(tpl, format!("while ({x} < 1) {{ {x}++; if ({x} == 3) {{ signal zs; }} }}")),
        20 => when(tpl, format!("for (var zi = 0; zi < 2; zi++) {{ if (zi == 3) {{ zi = 4; }} else {{ component zc = Leaf(2); }} }}")),
        21 => when(tpl, format!("while ({x} < 1) {{ while ({x} < 1) {{ {x}++; }} {{ Pair(2) zb; }} }}")),
        // custom templates have no constraints and no components
        22 => when(gate, "in[0] === in[1];".into()), 23 => when(gate && s.depth == 0, "signal zs; zs <== in[0];".into()), 24 => when(gate && s.depth == 0, "component zc = Leaf(2);".into()), 25 => when(gate, "_ <== in[0];".into()),
        26 => when(gate && !s.in_loop, "component zc;".into()), 27 => when(gate && s.depth == 0, "signal zs <== in[0];".into()), 28 => when(gate && s.depth == 0, "signal zs; in[0] ==> zs;".into()),
        // names: not declared
        29 => Some(format!("{x} = zz;")), 30 => Some(format!("{x} = {arr}[zz];")), 31 => Some(format!("if (zz == 1) {{ {x} = 1; }}")), 32 => Some(format!("while (zz < 1) {{ {x} = 1; }}")),
        33 => Some(format!("{x} = base(zz, 1);")), 34 => Some(format!("{x} = base(1, {x} + zz);")), 35 => Some("log(\"m\", zz);".into()), 36 => Some("assert(zz == 1);".into()), 37 => Some("var zq[zz];".into()),
        38 => Some(format!("{x} = zz == 1 ? 1 : 2;")), 39 => Some(format!("{x} = {x} == 1 ? zz : 2;")), 40 => Some(format!("{x} = {x} == 1 ? 2 : zz;")), 41 => Some("var zq[2] = [1, zz];".into()), 42 => Some(format!("{x} = -zz;")), 43 => Some("zz = 1;".into()),
        44 => Some("zz++;".into()), 45 => when(tpl, "in[0] === zz;".into()), 46 => when(tpl, "in[zz] === in[0];".into()), 47 => when(tpl && !s.in_loop, "component zc = Leaf(zz);".into()), 48 => when(!fun && !s.in_loop, "signal zs[zz];".into()),
        49 => when(fun, "return zz;".into()), 50 => Some(format!("{{ var ze = 1; {x} = ze; }} {x} = ze;")), 51 => Some(format!("if ({x} == 1) {{ var ze = 1; }} {x} = ze;")), 52 => Some(format!("for (var zi = 0; zi < 2; zi++) {{ {x} = zi; }} {x} = zi;")),
        // names: declared twice
        53 => Some("var zd = 1; var zd = 2;".into()), 54 => if s.depth == 0 { s.params.first().map(|p| format!("var {p};")) } else { None }, 55 => when(tpl && !s.in_loop, "var zd = 1; signal zd;".into()),
        // calls
        56 => Some(format!("{x} = nothing(1);")), 57 => Some(format!("{x} = base(1);")), 58 => Some(format!("{x} = base(1, 2, 3);")), 59 => when(tpl && !s.in_loop, "component zc = Leaf();".into()), 60 => when(tpl && !s.in_loop, "Pair(2, 3) zb;".into()),
        // a tag named like a field
        61 => when(tpl && !s.in_loop, "Pair(2) {f} zb;".into()),
        _ => None,
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Bad { None, Body(usize), Fall(usize), Bus(usize), Head(usize) }
const N_BUS: usize = 17;
fn bad_field(v: usize) -> &'static str {
    ["signal input zs;", "signal output zs;", "var zx = 1;", "if (n == 1) { signal zs; }", "while (n < 1) { signal zs; }", "assert(n == 1);", "log(n);", "input Pair(2) zb;", "component zc = Leaf(2);", "signal zs[Leaf(2)];",
     "n === 1;", "n = 2;", "return 1;", "signal zs[zz];", "Pair(zz) zb;", "Nothing(2) zb;", "Pair() zb;"][v]
}
const N_HEAD: usize = 16;
struct Gen { r: Rng, k: usize, slots: usize, target: Option<usize>, bad: Bad, fall_slots: usize }
struct Scope { vars: Vec<Vec<String>>, arrs: Vec<Vec<String>> }
impl Scope {
    fn visible(v: &[Vec<String>], other: &[Vec<String>]) -> Vec<String> {
        // innermost declaration decides whether a name is a number or an array
        let mut out = BTreeSet::new();
        let mut hidden = BTreeSet::new();
        for i in (0..v.len()).rev() {
            for n in &v[i] { if !hidden.contains(n) { out.insert(n.clone()); } }
            for n in v[i].iter().chain(&other[i]) { hidden.insert(n.clone()); }
        }
        out.into_iter().collect()
    }
    fn nums(&self) -> Vec<String> { Scope::visible(&self.vars, &self.arrs) }
    fn arrays(&self) -> Vec<String> { Scope::visible(&self.arrs, &self.vars) }
}
impl Gen {
    fn fresh(&mut self, p: &str) -> String { self.k += 1; format!("{}{}", p, self.k) }
    fn num(&mut self, s: &Scope) -> String { let v = s.nums(); self.r.pick(&v).clone() }
    fn expr(&mut self, s: &Scope, d: usize) -> String {
        match if d == 0 { self.r.us(3) } else { self.r.us(8) } {
            0 => format!("{}", self.r.us(9)), 1 => self.num(s), 2 => { let v = s.arrays(); format!("{}[{}]", self.r.pick(&v), self.r.us(2)) }
            3 => format!("({} + {})", self.expr(s, d - 1), self.expr(s, d - 1)), 4 => format!("({} * {})", self.expr(s, d - 1), self.expr(s, d - 1)),
            5 => format!("base({}, {})", self.expr(s, d - 1), self.expr(s, d - 1)), 6 => format!("({} == 1 ? {} : {})", self.expr(s, d - 1), self.expr(s, d - 1), self.expr(s, d - 1)), _ => format!("(-{})", self.num(s)),
        }
    }
    fn here(&mut self, ctx: Ctx, in_loop: bool, depth: usize, s: &Scope, params: &[String], out: &mut String) {
        if let Bad::Body(v) = self.bad {
            let (n, a) = (s.nums(), s.arrays());
            let n: Vec<String> = n.into_iter().filter(|x| !params.contains(x)).collect();
            let (x, arr) = (self.r.pick(&n).clone(), self.r.pick(&a).clone());
            if let Some(t) = broken(v, &Slot { ctx, in_loop, depth, x: &x, arr: &arr, params }) {
                if self.target == Some(self.slots) { out.push_str(&t); out.push('\n'); }
                self.slots += 1;
            }
        }
    }
    fn block(&mut self, ctx: Ctx, in_loop: bool, depth: usize, s: &mut Scope, params: &[String], fill: usize) -> String {
        s.vars.push(vec![]);
        s.arrs.push(vec![]);
        let t = self.stmts(ctx, in_loop, depth, s, params, fill);
        s.vars.pop();
        s.arrs.pop();
        format!("{{\n{}}}", t)
    }
    fn stmts(&mut self, ctx: Ctx, in_loop: bool, depth: usize, s: &mut Scope, params: &[String], fill: usize) -> String {
        let mut o = String::new();
        self.here(ctx, in_loop, depth, s, params, &mut o);
        for _ in 0..1 + self.r.us(fill) {
            let e = self.expr(s, 2);
            match self.r.us(12) {
                0 => {
                    // a name of an enclosing block may be declared again
                    let outer: Vec<String> = s.nums().into_iter().chain(s.arrays()).filter(|x| !s.vars.last().unwrap().contains(x) && !s.arrs.last().unwrap().contains(x) && depth > 0 && *x != "x" && *x != "y").collect();
                    let x = if !outer.is_empty() && !in_loop && self.r.chance(1, 2) { self.r.pick(&outer).clone() } else { self.fresh("v") };
                    if self.r.chance(2, 3) { o += &format!("var {} = {};\n", x, e_without(&e, &x)); s.vars.last_mut().unwrap().push(x); }
                    else { o += &format!("var {}[2] = [{}, 2];\n", x, e_without(&e, &x)); s.arrs.last_mut().unwrap().push(x); }
                }
                1 | 2 => { let n: Vec<String> = s.nums().into_iter().filter(|x| !params.contains(x)).collect(); o += &format!("{} = {};\n", self.r.pick(&n), e); }
                3 => { let v = s.arrays(); o += &format!("{}[{}] = {};\n", self.r.pick(&v), self.r.us(2), e); }
                4 => o += &format!("assert({} == 1);\n", e),
                5 => o += &format!("log(\"v\", {});\n", e),
                6 | 7 if depth < 4 => { let b = self.block(ctx, in_loop, depth + 1, s, params, 2); o += &format!("if ({} == 1) {}", e, b); if self.r.chance(1, 4) { let b = self.block(ctx, in_loop, depth + 1, s, params, 2); o += &format!(" else if ({} == 2) {}", e, b); } if self.r.chance(1, 2) { let b = self.block(ctx, in_loop, depth + 1, s, params, 2); o += &format!(" else {}", b); } o.push('\n'); }
                8 if depth < 4 => { let b = self.block(ctx, true, depth + 1, s, params, 2); o += &format!("while ({} == 1) {}\n", e, b); }
                9 if depth < 4 => { let b = self.block(ctx, in_loop, depth + 1, s, params, 2); o += &format!("{}\n", b); }
                10 | 11 => match ctx {
                    Ctx::Fun => o += &if self.r.chance(1, 2) { format!("if ({} == 1) {{ return {}; }}\n", e, self.expr(s, 1)) } else { format!("while ({} == 1) {{ return {}; }}\n", e, self.expr(s, 1)) },
                    Ctx::Tpl => match self.r.us(5) {
                        0 => o += &format!("in[{}] * {} === in[{}];\n", self.r.us(3), e, self.r.us(3)),
                        1 if !in_loop => { let x = self.fresh("s"); o += &format!("signal {} <== in[0] * {};\n", x, e); }
                        2 if !in_loop => { let x = self.fresh("c"); o += &format!("component {} = Leaf({}); {}.in <== in[1];\n", x, e, x); }
                        3 if !in_loop => { let x = self.fresh("b"); o += &format!("Pair(2) {}; {}.f <== in[0]; {}.g[0] <== in[1]; {}.g[1] <== {};\n", x, x, x, x, e); }
                        _ => o += &format!("for (var i = 0; i < 2; i++) {{ in[i] === in[i+1] * {}; }}\n", e),
                    },
                    Ctx::Gate => if !in_loop && depth == 0 { let x = self.fresh("s"); o += &format!("signal {}; {} <-- in[0] * {};\n", x, x, e); },
                },
                _ => {}
            }
            self.here(ctx, in_loop, depth, s, params, &mut o);
        }
        o
    }
    // a list of statements that returns on every path, unless this is the chosen place
    fn returning(&mut self, depth: usize, s: &Scope) -> String {
        let e = self.expr(s, 1);
        if depth > 0 && self.r.chance(1, 2) {
            let (a, b) = (self.returning(depth - 1, s), self.returning(depth - 1, s));
            return format!("if ({} == 1) {{ {} }} else {{ {} }}", e, a, b);
        }
        self.fall_slots += 1;
        if let Bad::Fall(k) = self.bad {
            if self.target == Some(self.fall_slots - 1) {
                return match k { 0 => String::new(), 1 => format!("while ({} == 1) {{ return 1; }}", e), 2 => format!("if ({} == 1) {{ return 1; }}", e), 3 => format!("if ({} == 1) {{ return 1; }} else {{ log(1); }}", e), 4 => format!("if ({} == 1) {{ log(1); }} else {{ return 1; }}", e), _ => format!("while ({} == 1) {{ if (1 == 2) {{ return 1; }} else {{ return 2; }} }}", e) };
            }
        }
        if self.r.chance(1, 4) { format!("{{ return {}; }}", e) } else { format!("return {};", e) }
    }
    fn function(&mut self, name: &str, np: usize) -> String {
        let params: Vec<String> = (0..np).map(|i| format!("p{}", i)).collect();
        let mut s = Scope { vars: vec![params.clone()], arrs: vec![vec![]] };
        s.vars[0].push("x".into());
        s.arrs[0].push("y".into());
        let b = self.stmts(Ctx::Fun, false, 0, &mut s, &params, 4);
        let t = self.returning(3, &s);
        format!("function {}({}) {{\nvar x = 1; var y[2] = [1, 2];\n{}{}\n}}\n", name, params.join(", "), b, t)
    }
    fn template(&mut self, name: &str, np: usize, gate: bool) -> String {
        let params: Vec<String> = (0..np).map(|i| format!("p{}", i)).collect();
        let mut s = Scope { vars: vec![params.clone()], arrs: vec![vec![]] };
        s.vars[0].push("x".into());
        s.arrs[0].push("y".into());
        let b = self.stmts(if gate { Ctx::Gate } else { Ctx::Tpl }, false, 0, &mut s, &params, 5);
        format!("template {}{}({}) {{\nsignal input in[3]; signal output out; var x = 1; var y[2] = [1, 2];\n{}out <{} in[0];\n}}\n", if gate { "custom " } else { "" }, name, params.join(", "), b, if gate { "--" } else { "==" })
    }
    fn program(&mut self) -> String {
        let head = if let Bad::Head(v) = self.bad { Some(v) } else { None };
        let h = |v: usize| head == Some(v);
        let mut o = String::from("pragma circom 2.2.0;\npragma custom_templates;\n");
        o += "bus Pair(n) { signal f; signal g[n]; }\n";
        o += &format!("bus Big({}) {{ signal {{t}} h[n];\n", if h(0) { "n, n" } else { "n" });
        for i in 0..3 {
            if self.bad_bus(i) { if let Bad::Bus(v) = self.bad { o += bad_field(v); } }
            o += ["signal a[2][n];\n", "Pair(n) b;\n", "Pair(2) c[n];\n"][i];
        }
        o += "}\n";
        o += "template Leaf(n) { signal input in; signal output out; out <== in * n; }\n";
        o += &format!("function base({}) {{ return a + {}; }}\n", if h(1) { "a, a" } else { "a, b" }, if h(1) { "a" } else { "b" });
        // definitions that are not reached from main are not checked for types, and custom templates not at all
        let (mut uses, reach) = (String::new(), self.r.chance(1, 2));
        let args = |n: usize| (0..n).map(|i| format!("{}", i + 1)).collect::<Vec<_>>().join(", ");
        for i in 0..1 + self.r.us(2) { let n = self.r.us(3); o += &self.function(&format!("fun{}", i), n); if reach { uses += &format!("var u{i} = fun{i}({});\n", args(n)); } }
        for i in 0..1 + self.r.us(2) { let n = self.r.us(3); o += &self.template(&format!("Tpl{}", i), n, false); if reach { uses += &format!("component t{i} = Tpl{i}({});\n", args(n)); } }
        if self.r.chance(2, 3) { o += &self.template("Gate", 1, true); uses += "component gate = Gate(1);\n"; }
        if h(2) { o += "template Two(a, a) { signal input in; in === a; }\n"; }
        if h(3) { o += "function base(a, b) { return a; }\n"; }
        if h(4) { o += "template base(a, b) { signal input in; in === a; }\n"; }
        if h(5) { o += "function Leaf(a) { return a; }\n"; }
        if h(6) { o += "bus Leaf(n) { signal a; }\n"; }
        if h(7) { o += "template Pair(n) { signal input in; in === n; }\n"; }
        if h(8) { o += "bus Pair(n) { signal f; }\n"; }
        if h(9) { o += "bus Twice() { signal a; signal a; }\n"; }
        if h(10) { o += "template Gone() { signal input in; signal in; }\n"; }
        if h(11) { o += "function none() { }\n"; }
        let (public, inst) = if h(12) { ("{public [out]}", "Main(2)") } else if h(13) { ("{public [in, zz]}", "Main(2)") } else if h(14) { ("", "Main()") } else if h(15) { ("", "Nothing(2)") } else { (if self.r.chance(1, 2) { "{public [in]}" } else { "" }, "Main(2)") };
        o += &format!("template Main(n) {{ signal input in[n]; signal input jn; signal output out; out <== in[0] * jn;\n{}}}\ncomponent main {} = {};\n", uses, public, inst);
        o
    }
    fn bad_bus(&self, i: usize) -> bool { matches!(self.bad, Bad::Bus(_)) && self.target == Some(i) }
}
// the initial value of a declaration is evaluated with the name already declared: do not mention it
fn e_without(e: &str, x: &str) -> String {
    let used = e.split(|c: char| !c.is_alphanumeric()).any(|w| w == x);
    if used { "7".into() } else { e.to_string() }
}
fn accepted(src: &str, dir: &str) -> Result<bool, String> {
    let f = format!("{}/c16.circom", dir);
    std::fs::write(&f, src).map_err(|e| e.to_string())?;
    let (mut archive, _) = match parser::run_parser(f, "2.2.3", vec![], &big(PRIMES[0].1), false) { Ok(a) => a, Err((_, e)) => return Err(format!("did not parse: {:?}", e.iter().map(|x| x.get_message().clone()).collect::<Vec<_>>())) };
    match type_analysis::check_types::check_types(&mut archive) { Ok(_) => Ok(true), Err(e) => Err(format!("rejected: {:?}", e.iter().map(|x| x.get_message().clone()).collect::<Vec<_>>())) }
}
fn main() {
    let mut h = Harness::new("random programs (nested blocks, branches and loops in functions, templates, custom templates, buses; names of enclosing blocks declared again) that obey every rule are accepted; with one rule broken at a random place they are rejected");
    let dir = h.scratch.clone();
    let mut round = 0usize;
    while h.time_left() {
        let seed = h.rng.next();
        let make = |bad: Bad, target: Option<usize>| { let mut g = Gen { r: Rng::new(seed), k: 0, slots: 0, target, bad, fall_slots: 0 }; let t = g.program(); (t, g.slots, g.fall_slots) };
        if round % 8 == 0 {
            let (t, _, _) = make(Bad::None, None);
            let d = dir.clone();
            h.case("accepted", t.clone(), move || accepted(&t, &d));
        }
        round += 1;
        let bad = match h.rng.us(10) { 0..=6 => Bad::Body(h.rng.us(N_BODY)), 7 => Bad::Fall(h.rng.us(6)), 8 => Bad::Bus(h.rng.us(N_BUS)), _ => Bad::Head(h.rng.us(N_HEAD)) };
        let n = match bad { Bad::Body(_) => make(bad, None).1, Bad::Fall(_) => make(bad, None).2, Bad::Bus(_) => 3, _ => 1 };
        if n == 0 { continue; }
        let target = h.rng.us(n);
        let (t, _, _) = make(bad, Some(target));
        let d = dir.clone();
        h.count(match bad { Bad::Body(_) => "statement", Bad::Fall(_) => "missing return", Bad::Bus(_) => "bus field", _ => "definition" });
        h.case(&format!("{:?}", bad), format!("{:?} at place {}\n{}", bad, target, t), move || match accepted(&t, &d) { Ok(_) => Err("accepted".into()), Err(_) => Ok(true) });
    }
    h.finish();
}
