// Includes, through the parser's public entry point on directory trees in a scratch directory.
use harness::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
const DIRS: [&str; 4] = ["", "lib1", "lib2", "sub"];
const NAMES: [&str; 3] = ["m.circom", "x.circom", "y.circom"];
type Tree = BTreeMap<(usize, usize), Vec<String>>; // (dir, name) -> includes
fn normal(path: &str) -> Option<(usize, usize)> {
    let mut st: Vec<&str> = vec![];
    for c in path.split('/') {
        // every directory that is walked through must exist
        if st.len() > 0 && !DIRS.contains(&st.join("/").as_str()) { return None; }
        match c { "" | "." => {} ".." => { st.pop()?; } x => st.push(x) }
    }
    let name = NAMES.iter().position(|n| Some(n) == st.last())?;
    let dir = st[..st.len() - 1].join("/");
    Some((DIRS.iter().position(|d| *d == dir)?, name))
}
/// the file an include names, tried in the includer's directory and then in the libraries
fn locate(t: &Tree, from: (usize, usize), inc: &str, libs: &[usize]) -> Option<(usize, usize)> {
    let mut dirs = vec![from.0];
    dirs.extend(libs);
    for d in dirs {
        if let Some(k) = normal(&format!("{}/{}", DIRS[d], inc)) { if t.contains_key(&k) { return Some(k); } }
    }
    None
}
fn tname(k: (usize, usize)) -> String { format!("T{}{}", k.0, k.1) }
fn run(dir: &str, t: &Tree, libs: &[usize], rel: u64) -> Result<bool, String> {
    let _ = std::fs::remove_dir_all(format!("{}/t", dir));
    for d in DIRS { std::fs::create_dir_all(format!("{}/t/{}", dir, d)).map_err(|e| e.to_string())?; }
    for (k, inc) in t {
        let mut s = "pragma circom 2.0.0;\n".to_string();
        for i in inc { s += &format!("include \"{}\";\n", i); }
        s += &format!("template {}() {{ signal input a; signal output b; b <== a; }}\n", tname(*k));
        if *k == (0, 0) { s += "component main = T00();\n"; }
        std::fs::write(format!("{}/t/{}/{}", dir, DIRS[k.0], NAMES[k.1]), s).map_err(|e| e.to_string())?;
    }
    let mut seen = BTreeSet::new();
    let mut st = vec![(0, 0)];
    let mut lost = false;
    while let Some(k) = st.pop() {
        if !seen.insert(k) { continue; }
        for i in &t[&k] { match locate(t, k, i, libs) { Some(q) => st.push(q), None => lost = true } }
    }
    std::env::set_current_dir(format!("{}/t", dir)).map_err(|e| e.to_string())?;
    let root = match rel { 0 => "m.circom".to_string(), 1 => "./m.circom".to_string(), 2 => "sub/../m.circom".to_string(), _ => format!("{}/t/m.circom", dir) };
    let l: Vec<PathBuf> = libs.iter().map(|d| PathBuf::from(format!("{}/t/{}", dir, DIRS[*d]))).collect();
    let r = parser::run_parser(root, "2.1.9", l, &big(PRIMES[0].1), false);
    let _ = std::env::set_current_dir(dir);
    match r {
        Ok((a, w)) => {
            if lost { return Err("accepted although an include names no file".into()); }
            if !w.is_empty() { return Err("unexpected warnings".into()); }
            let got: BTreeSet<String> = a.get_templates().keys().cloned().collect();
            let want: BTreeSet<String> = seen.iter().map(|k| tname(*k)).collect();
            if got != want { return Err(format!("templates of the program are {:?}, expected {:?}", got, want)); }
            Ok(seen.len() > 1)
        }
        Err((_, e)) => {
            let codes: Vec<String> = e.iter().map(|r| format!("{}: {}", r.get_code(), r.get_message())).collect();
            if !lost { return Err(format!("rejected although every include names a file: {:?}", codes)); }
            if !codes.iter().any(|c| c.contains(&program_structure::error_code::ReportCode::IncludeNotFound.to_string())) { return Err(format!("wrong report for a missing include: {:?}", codes)); }
            Ok(true)
        }
    }
}
fn main() {
    let mut h = Harness::new("a case is a tree of files (main directory, a subdirectory, two libraries) with include directives, the order of libraries and the spelling of the main path; non-trivial when more than one file is reached");
    let dir = h.scratch.clone();
    let incs = ["x.circom", "y.circom", "m.circom", "sub/x.circom", "../x.circom", "sub/../y.circom", "./x.circom", "../sub/y.circom", "lib1/x.circom"];
    while h.time_left() {
        let mut t = Tree::new();
        for d in 0..4 { for n in 0..3 {
            if (d, n) == (0, 0) || h.rng.chance(1, 2) {
                let k = h.rng.us(3);
                let mut v = vec![];
                for _ in 0..k { v.push(h.rng.pick(&incs).to_string()); }
                t.insert((d, n), v);
            }
        } }
        if h.rng.chance(2, 3) {
            // drop the includes that name nothing
            let libs = [1, 2];
            let c = t.clone();
            for (k, v) in t.iter_mut() { v.retain(|i| locate(&c, *k, i, &libs).is_some()); }
        }
        let libs: Vec<usize> = if h.rng.chance(1, 2) { vec![1, 2] } else { vec![2, 1] };
        let rel = h.rng.below(4);
        h.case("includes", format!("{:?} libraries {:?} main spelling {}", t, libs, rel), || run(&dir, &t, &libs, rel));
    }
    h.finish();
}
