use std::collections::BTreeMap;
use std::path::Path;

#[derive(Default, Clone)]
pub struct FnSpec {
    pub name: String,
    pub ret: String,
    pub spec: String,
    pub assume: bool,
    pub proved_in: Option<String>,
    pub attrs: Vec<String>,
    pub loops: BTreeMap<usize, String>,
    pub hints: Vec<(String, String)>, // (position, text)
    pub opts: BTreeMap<String, String>,
    pub ops: bool,
    pub subst: Vec<(String, String)>,
    pub trait_impl: bool,
}

pub enum Decl {
    Verbatim(String),
    Item { name: String, opts: BTreeMap<String, String> },
    Fn(FnSpec),
}

#[derive(Default)]
pub struct ModSpec {
    pub name: Option<String>,
    pub sources: Vec<String>,
    pub decls: Vec<Decl>,
    pub bounds: BTreeMap<String, String>,
}

#[derive(Default)]
pub struct UnitSpec {
    pub preludes: Vec<(String, String)>,
    pub mods: Vec<ModSpec>,
    pub crate_attrs: Vec<String>,
    pub rename_methods: BTreeMap<String, String>,
    pub paths: Vec<(String, String)>,
    pub drop_macros: Vec<String>,
    pub fmt: bool,
    pub slices: bool,
    pub optmap: Vec<String>,
    pub inline: Vec<String>,
}

fn kv(words: &[&str]) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for w in words {
        if let Some((a, b)) = w.split_once('=') {
            m.insert(a.to_string(), b.to_string());
        } else {
            m.insert(w.to_string(), String::new());
        }
    }
    m
}

enum Sink { None, Verb, FnSpec, Loop(usize), Hint }

pub fn parse_unit(dir: &Path, unit: &str) -> Result<UnitSpec, String> {
    let mut u = UnitSpec::default();
    let mut ops_default = false;
    load(dir, &format!("{}.vspec", unit), &mut u, &mut ops_default, &BTreeMap::new())?;
    Ok(u)
}

/// `import` options: `assume=<unit>` turns every fn of the imported file into an assumed contract.
fn load(dir: &Path, file: &str, u: &mut UnitSpec, ops_default: &mut bool, iopts: &BTreeMap<String, String>) -> Result<(), String> {
    let text = std::fs::read_to_string(dir.join(file)).map_err(|e| format!("{}: {}", file, e))?;
    let mut sink = Sink::None;
    let mut cur_fn: Option<FnSpec> = None;
    let mut skip_fn = false;
    let mut verb = String::new();
    macro_rules! flush {
        () => {
            if !verb.is_empty() {
                let t = std::mem::take(&mut verb);
                u.mods.last_mut().ok_or("verbatim before source")?.decls.push(Decl::Verbatim(t));
            }
            if let Some(f) = cur_fn.take() {
                if !skip_fn {
                    u.mods.last_mut().ok_or("fn before source")?.decls.push(Decl::Fn(f));
                }
            }
            skip_fn = false;
        };
    }
    for (ln, line) in text.lines().enumerate() {
        let t = line.trim_start();
        if let Some(d) = t.strip_prefix('%') {
            let words: Vec<&str> = d.split_whitespace().collect();
            if words.is_empty() { continue; }
            match words[0] {
                "#" | "//" => continue,
                "use" => {
                    let p = words[1];
                    if !u.preludes.iter().any(|x| x.0 == p) {
                        let t = std::fs::read_to_string(dir.join("..").join("prelude").join(p)).map_err(|e| format!("{}: {}", p, e))?;
                        u.preludes.push((p.to_string(), t));
                    }
                }
                "import" => {
                    flush!();
                    sink = Sink::None;
                    let o = kv(&words[2..]);
                    let mut od = *ops_default;
                    load(dir, words[1], u, &mut od, &o)?;
                }
                "crate_attr" => u.crate_attrs.push(words[1..].join(" ")),
                "mod" => {
                    flush!();
                    sink = Sink::None;
                    u.mods.push(ModSpec { name: if words[1] == "root" { None } else { Some(words[1].to_string()) }, ..Default::default() });
                }
                "source" => { u.mods.last_mut().ok_or("source before mod")?.sources.push(words[1].to_string()); }
                "bound" => {
                    let rest = words[1..].join(" ");
                    let (a, b) = rest.split_once('=').ok_or("bound")?;
                    u.mods.last_mut().ok_or("bound before mod")?.bounds.insert(a.trim().to_string(), b.trim().to_string());
                }
                "ops" => *ops_default = words[1] == "on",
                "rename_method" => {
                    let (a, b) = words[1].split_once('=').ok_or("rename")?;
                    u.rename_methods.insert(a.to_string(), b.to_string());
                }
                "path" => {
                    let (a, b) = words[1].split_once('=').ok_or("path")?;
                    u.paths.push((a.to_string(), b.to_string()));
                }
                "drop_macro" => u.drop_macros.push(words[1].to_string()),
                "fmt" => u.fmt = words[1] == "on",
                "slices" => u.slices = words[1] == "on",
                "inline" => u.inline.extend(words[1..].iter().map(|w| w.to_string())),
                "optmap" => u.optmap.push(words[1].to_string()),
                "item" => {
                    flush!();
                    sink = Sink::None;
                    let o = kv(&words[2..]);
                    u.mods.last_mut().ok_or("item before mod")?.decls.push(Decl::Item { name: words[1].to_string(), opts: o });
                }
                "verbatim" => {
                    flush!();
                    sink = Sink::Verb;
                }
                "fn" => {
                    flush!();
                    let o = kv(&words[2..]);
                    let mut f = FnSpec { name: words[1].to_string(), ret: o.get("ret").cloned().unwrap_or("r".into()), ..Default::default() };
                    f.ops = if o.contains_key("ops") { true } else if o.contains_key("noops") { false } else { *ops_default };
                    f.assume = o.contains_key("assume");
                    f.trait_impl = o.contains_key("trait_impl");
                    f.proved_in = o.get("proved_in").cloned();
                    if let Some(p) = iopts.get("assume") {
                        if !f.assume {
                            f.assume = true;
                            f.proved_in = Some(p.clone());
                        }
                    }
                    if let Some(only) = iopts.get("only") {
                        if !only.split(',').any(|x| x == f.name) { skip_fn = true; }
                    }
                    f.opts = o;
                    cur_fn = Some(f);
                    sink = Sink::FnSpec;
                }
                "attr" => cur_fn.as_mut().ok_or("attr outside fn")?.attrs.push(words[1..].join(" ")),
                "subst" => {
                    let rest = t[1..].trim_start().strip_prefix("subst").unwrap().trim();
                    let (a, b) = rest.split_once("=>").ok_or("subst")?;
                    cur_fn.as_mut().ok_or("subst outside fn")?.subst.push((a.trim().to_string(), b.trim().to_string()));
                }
                "loop" => {
                    let n: usize = words[1].parse().map_err(|_| format!("{}:{} loop number", file, ln + 1))?;
                    cur_fn.as_mut().ok_or("loop outside fn")?.loops.insert(n, String::new());
                    sink = Sink::Loop(n);
                }
                "at" => {
                    cur_fn.as_mut().ok_or("at outside fn")?.hints.push((words[1..].join(" "), String::new()));
                    sink = Sink::Hint;
                }
                "end" => { flush!(); sink = Sink::None; }
                o => return Err(format!("{}:{}: unknown directive {}", file, ln + 1, o)),
            }
            continue;
        }
        match &sink {
            Sink::None => {}
            Sink::Verb => { verb.push_str(line); verb.push('\n'); }
            Sink::FnSpec => { let f = cur_fn.as_mut().unwrap(); f.spec.push_str(line); f.spec.push('\n'); }
            Sink::Loop(n) => { let f = cur_fn.as_mut().unwrap(); let e = f.loops.get_mut(n).unwrap(); e.push_str(line); e.push('\n'); }
            Sink::Hint => { let f = cur_fn.as_mut().unwrap(); let e = f.hints.last_mut().unwrap(); e.1.push_str(line); e.1.push('\n'); }
        }
    }
    flush!();
    let _ = &sink; let _ = skip_fn;
    Ok(())
}
