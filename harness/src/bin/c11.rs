// Versions and custom template pragmas, through the parser's public entry point on files in a scratch directory.
use harness::*;
use program_structure::error_code::ReportCode;
use program_structure::error_definition::Report;
use std::path::PathBuf;
type V = (u64, u64, u64);
fn le(a: (u64, u64), b: (u64, u64)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 <= b.1) }
fn accepted(v: V, c: V) -> bool { v.0 == c.0 && le((v.1, v.2), (c.1, c.2)) }
fn at_least(v: V, w: V) -> bool { v.0 > w.0 || (v.0 == w.0 && le((w.1, w.2), (v.1, v.2))) }
#[derive(Clone, Debug)]
struct F { version: Option<V>, again: Option<V>, pragma: bool, custom: bool, includes: Vec<usize> }
fn text(i: usize, f: &F, main: bool) -> String {
    let mut s = String::new();
    if let Some(v) = f.version { s += &format!("pragma circom {}.{}.{};\n", v.0, v.1, v.2); }
    if f.pragma { s += "pragma custom_templates;\n"; }
    if let Some(v) = f.again { s += &format!("pragma circom {}.{}.{};\n", v.0, v.1, v.2); }
    for j in &f.includes { s += &format!("include \"f{}.circom\";\n", j); }
    s += &format!("template {} T{}() {{ signal input a; signal output b; b <== a; }}\n", if f.custom { "custom" } else { "" }, i);
    if main { s += &format!("template Main() {{ signal input a; signal output b; b <== a; }}\ncomponent main = Main();\n"); }
    s
}
fn code(r: &Report) -> String { format!("{}{}", if r.is_error() { "E:" } else { "W:" }, r.get_code()) }
fn run(dir: &str, fs: &[F], comp: V, rel: bool) -> Result<bool, String> {
    for (i, f) in fs.iter().enumerate() {
        std::fs::write(format!("{}/f{}.circom", dir, i), text(i, f, i == 0)).map_err(|e| e.to_string())?;
    }
    let n = fs.len();
    let mut reach = vec![false; n];
    let mut st = vec![0];
    while let Some(i) = st.pop() { if !reach[i] { reach[i] = true; for &j in &fs[i].includes { st.push(j); } } }
    let vis: Vec<usize> = (0..n).filter(|i| reach[*i]).collect();
    let bad_version = vis.iter().any(|&i| match fs[i].version { Some(v) => !accepted(v, comp), None => false });
    let double = vis.iter().any(|&i| fs[i].again.is_some() && fs[i].version.is_some());
    let bad_custom = vis.iter().any(|&i| fs[i].pragma && !at_least(fs[i].version.or(fs[i].again).unwrap_or(comp), (2, 0, 6)));
    // includers of files that declare custom templates
    let mut up = vec![false; n];
    for &i in &vis { up[i] = fs[i].custom; }
    loop {
        let mut ch = false;
        for &i in &vis { if !up[i] && fs[i].includes.iter().any(|&j| up[j]) { up[i] = true; ch = true; } }
        if !ch { break; }
    }
    let bad_pragma = vis.iter().any(|&i| up[i] && !fs[i].pragma);
    let missing = vis.iter().filter(|&&i| fs[i].version.is_none() && fs[i].again.is_none()).count();
    let root = if rel { "f0.circom".to_string() } else { format!("{}/f0.circom", dir) };
    std::env::set_current_dir(dir).map_err(|e| e.to_string())?;
    let r = parser::run_parser(root, &format!("{}.{}.{}", comp.0, comp.1, comp.2), vec![PathBuf::from(dir)], &big(PRIMES[0].1), false);
    let (ok, rep) = match r { Ok((_, w)) => (true, w), Err((_, e)) => (false, e) };
    let codes: Vec<String> = rep.iter().map(code).collect();
    let has = |k: ReportCode| codes.iter().filter(|c| **c == format!("E:{}", k)).count();
    let want_ok = !(bad_version || double || bad_custom || bad_pragma);
    if ok != want_ok { return Err(format!("accepted={} but expected {} (version {}, custom version {}, pragma chain {}, doubled pragma {}); reports {:?}", ok, want_ok, bad_version, bad_custom, bad_pragma, double, codes)); }
    if ok {
        let w = codes.iter().filter(|c| **c == format!("W:{}", ReportCode::NoCompilerVersionWarning)).count();
        if w != missing || codes.len() != missing { return Err(format!("{} files have no version pragma, reports {:?}", missing, codes)); }
    } else {
        let kinds = has(ReportCode::CompilerVersionError) > 0 && bad_version
            || has(ReportCode::CustomGatesVersionError) > 0 && bad_custom
            || has(ReportCode::CustomGatesPragmaError) > 0 && bad_pragma
            || has(ReportCode::MultiplePragma) > 0 && double;
        if !kinds { return Err(format!("the error reported is not among the ones the files deserve: {:?}", codes)); }
    }
    Ok(missing != n)
}
fn main() {
    let mut h = Harness::new("a case is a set of files with version / custom template pragmas and include edges, and a compiler version; non-trivial when some file has a version pragma");
    let dir = h.scratch.clone();
    let mk = |version| F { version, again: None, pragma: false, custom: false, includes: vec![] };
    let comps: [V; 6] = [(2, 1, 9), (2, 0, 5), (2, 0, 6), (1, 9, 9), (3, 0, 0), (2, 2, 0)];
    'a: for &c in &comps {
        let mut vs = vec![];
        for a in [-1i64, 0, 1] { for b in [-1i64, 0, 1, 10] { for d in [-1i64, 0, 1, 10] {
            let g = |x: u64, y: i64| (x as i64 + y).max(0) as u64;
            vs.push((g(c.0, a), g(c.1, b), g(c.2, d)));
        } } }
        for v in vs {
            for pragma in [false, true] {
                let f = vec![F { pragma, custom: pragma, ..mk(Some(v)) }];
                h.case("version", format!("{:?} compiler {:?}", f, c), || run(&dir, &f, c, false));
                let f = vec![F { includes: vec![1], pragma, ..mk(None) }, F { pragma, custom: pragma, ..mk(Some(v)) }];
                h.case("version of an included file", format!("{:?} compiler {:?}", f, c), || run(&dir, &f, c, false));
            }
            if !h.frac(0.5) { break 'a; }
        }
    }
    while h.time_left() {
        let n = 1 + h.rng.us(5);
        let c = if h.rng.chance(4, 5) { (2, 2, 1) } else { *h.rng.pick(&comps) };
        let fs: Vec<F> = (0..n).map(|_| {
            let v = |h: &mut Harness| (2, h.rng.below(3), h.rng.below(8));
            let mut f = mk(None);
            if h.rng.chance(3, 4) { f.version = Some(if h.rng.chance(3, 4) { (2, 1, h.rng.below(8)) } else { v(&mut h) }); }
            if h.rng.chance(1, 12) && f.version.is_some() { f.again = Some(v(&mut h)); }
            f.pragma = h.rng.chance(4, 5);
            f.custom = h.rng.chance(1, 4);
            for j in 0..n { if h.rng.chance(1, 3) { f.includes.push(j); } }
            f
        }).collect();
        let rel = h.rng.chance(1, 2);
        h.case("program of several files", format!("{:?} compiler {:?} relative root {}", fs, c, rel), || run(&dir, &fs, c, rel));
    }
    h.finish();
}
