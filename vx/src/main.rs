//! vx: mechanical extractor.  Reads a unit specification (contracts/<unit>.vspec),
//! takes the named items out of /repo's current source, splices the contracts in,
//! and writes one Verus file.  See DESIGN.md for the list of rewritings.
mod render;
mod spec;
use render::*;
use spec::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use syn::spanned::Spanned;

pub struct SourceFile {
    pub path: String,
    pub text: String,
    pub ast: syn::File,
}

pub struct FnItem<'a> {
    pub file: usize,
    pub imp: Option<&'a syn::ItemImpl>,
    pub sig: &'a syn::Signature,
    pub block: &'a syn::Block,
    /// declared inside a function of the same name: hoisted as NAME__inner
    pub inner: bool,
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => String::new(),
    }
}

fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = quote_str(a);
            s.contains("test")
        }
    })
}
fn quote_str(a: &syn::Attribute) -> String {
    match &a.meta {
        syn::Meta::List(l) => l.tokens.to_string(),
        _ => String::new(),
    }
}

pub struct Index<'a> {
    pub fns: BTreeMap<String, FnItem<'a>>,
    pub structs: BTreeMap<String, (usize, &'a syn::Item)>,
    /// `impl Trait for Type` blocks, keyed "Trait for Type"
    pub impls: BTreeMap<String, (usize, &'a syn::ItemImpl)>,
}

/// functions and type aliases declared inside a function body are taken as items of the module
struct Locals<'x, 'a> {
    ix: &'x mut Index<'a>,
    fi: usize,
    module: &'x str,
    outer: String,
}
impl<'x, 'a> syn::visit::Visit<'a> for Locals<'x, 'a> {
    fn visit_item(&mut self, it: &'a syn::Item) {
        match it {
            syn::Item::Fn(f) => {
                let inner = f.sig.ident == self.outer;
                let suffix = if inner { "__inner" } else { "" };
                self.ix.fns.entry(format!("{}{}{}", self.module, f.sig.ident, suffix)).or_insert(FnItem { file: self.fi, imp: None, sig: &f.sig, block: &f.block, inner });
                self.visit_block(&f.block);
            }
            syn::Item::Type(s) => {
                self.ix.structs.entry(format!("{}{}", self.module, s.ident)).or_insert((self.fi, it));
            }
            _ => {}
        }
    }
}
// functions and types declared inside a body, at any depth
fn index_local<'a>(ix: &mut Index<'a>, fi: usize, b: &'a syn::Block, module: &str, outer: String) {
    syn::visit::Visit::visit_block(&mut Locals { ix, fi, module, outer }, b);
}

fn index_items<'a>(ix: &mut Index<'a>, fi: usize, items: &'a [syn::Item], module: &str) {
    for it in items {
        match it {
            syn::Item::Fn(f) => {
                if is_cfg_test(&f.attrs) {
                    continue;
                }
                ix.fns.entry(format!("{}{}", module, f.sig.ident)).or_insert(FnItem {
                    file: fi,
                    imp: None,
                    sig: &f.sig,
                    block: &f.block,
                    inner: false,
                });
                index_local(ix, fi, &f.block, module, f.sig.ident.to_string());
            }
            syn::Item::Impl(im) => {
                if is_cfg_test(&im.attrs) {
                    continue;
                }
                let ty = type_name(&im.self_ty);
                if let Some((_, p, _)) = &im.trait_ {
                    let tr = p.segments.last().unwrap().ident.to_string();
                    ix.impls.entry(format!("{} for {}", tr, ty)).or_insert((fi, im));
                }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        let key = if let Some((_, p, _)) = &im.trait_ {
                            let tr = p.segments.last().unwrap().ident.to_string();
                            format!("{}{}@{}::{}", module, tr, ty, f.sig.ident)
                        } else {
                            format!("{}{}::{}", module, ty, f.sig.ident)
                        };
                        ix.fns.entry(key).or_insert(FnItem {
                            file: fi,
                            imp: Some(im),
                            sig: &f.sig,
                            block: &f.block,
                            inner: false,
                        });
                        index_local(ix, fi, &f.block, module, f.sig.ident.to_string());
                    }
                }
            }
            syn::Item::Struct(s) => {
                ix.structs.entry(format!("{}{}", module, s.ident)).or_insert((fi, it));
            }
            syn::Item::Enum(s) => {
                ix.structs.entry(format!("{}{}", module, s.ident)).or_insert((fi, it));
            }
            syn::Item::Const(s) => {
                ix.structs.entry(format!("{}{}", module, s.ident)).or_insert((fi, it));
            }
            syn::Item::Type(s) => {
                ix.structs.entry(format!("{}{}", module, s.ident)).or_insert((fi, it));
            }
            syn::Item::Trait(s) => {
                ix.structs.entry(format!("{}{}", module, s.ident)).or_insert((fi, it));
            }
            syn::Item::Mod(m) => {
                if is_cfg_test(&m.attrs) {
                    continue;
                }
                if let Some((_, items)) = &m.content {
                    index_items(ix, fi, items, &format!("{}{}::", module, m.ident));
                }
            }
            _ => {}
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut repo = PathBuf::from("/repo");
    let mut specdir = PathBuf::from("/verif/contracts");
    let mut unit = String::new();
    let mut out = PathBuf::from("out.rs");
    let mut bounded: BTreeSet<String> = BTreeSet::new();
    let mut noinline = false;
    let mut vacuity = false;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--repo" => { repo = PathBuf::from(&args[i + 1]); i += 1; }
            "--specs" => { specdir = PathBuf::from(&args[i + 1]); i += 1; }
            "--unit" => { unit = args[i + 1].clone(); i += 1; }
            "--out" => { out = PathBuf::from(&args[i + 1]); i += 1; }
            "--bounded" => {
                for x in args[i + 1].split(',') {
                    if !x.is_empty() { bounded.insert(x.to_string()); }
                }
                i += 1;
            }
            "--vacuity" => vacuity = true,
            "--noinline" => noinline = true,
            o => { eprintln!("unknown option {}", o); std::process::exit(2); }
        }
        i += 1;
    }
    let spec = match parse_unit(&specdir, &unit) {
        Ok(s) => s,
        Err(e) => { eprintln!("spec error: {}", e); std::process::exit(2); }
    };
    // load the sources
    let mut files: Vec<SourceFile> = vec![];
    let mut report_files = vec![];
    let mut lost: Vec<serde_json::Value> = vec![];
    for m in &spec.mods {
        for p in &m.sources {
            let full = repo.join(p);
            let text = match std::fs::read_to_string(&full) {
                Ok(t) => t,
                Err(e) => {
                    lost.push(json!({"file": p, "reason": format!("cannot read: {}", e)}));
                    String::new()
                }
            };
            let ast = match syn::parse_file(&text) {
                Ok(a) => a,
                Err(e) => {
                    lost.push(json!({"file": p, "reason": format!("cannot parse: {}", e)}));
                    syn::parse_file("").unwrap()
                }
            };
            report_files.push(p.clone());
            files.push(SourceFile { path: p.clone(), text, ast });
        }
    }
    let mut buf = String::new();
    buf.push_str("#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens, unused_assignments, unused_braces, non_camel_case_types)]\n");
    buf.push_str("#![feature(allocator_api)]\n");
    for x in &spec.crate_attrs { buf.push_str(x); buf.push('\n'); }
    buf.push_str("use vstd::prelude::*;\nverus! {\n");
    for p in &spec.preludes {
        buf.push_str(&format!("// ---- prelude {}\n", p.0));
        buf.push_str(&p.1);
        buf.push('\n');
    }
    let mut fnreport = vec![];
    let mut cursor = 0usize;
    for m in &spec.mods {
        let n = m.sources.len();
        let range = cursor..cursor + n;
        cursor += n;
        let mut ix = Index { fns: BTreeMap::new(), structs: BTreeMap::new(), impls: BTreeMap::new() };
        for fi in range.clone() {
            index_items(&mut ix, fi, &files[fi].ast.items, "");
        }
        if let Some(name) = &m.name {
            buf.push_str(&format!("pub mod {} {{\nuse super::*;\n", name));
        }
        for d in &m.decls {
            match d {
                Decl::Verbatim(t) => { buf.push_str(t); buf.push('\n'); }
                Decl::Item { name, opts } => match ix.structs.get(name) {
                    Some((fi, it)) => {
                        if let Some(d) = opts.get("derives") {
                            let attrs = match it { syn::Item::Struct(s) => &s.attrs, syn::Item::Enum(e) => &e.attrs, _ => &Vec::new() as &Vec<syn::Attribute> };
                            let ok = attrs.iter().any(|a| match &a.meta { syn::Meta::List(l) => a.path().is_ident("derive") && l.tokens.clone().into_iter().any(|t| t.to_string() == *d), _ => false });
                            if !ok { lost.push(json!({"fn": name, "reason": format!("{} is no longer derived", d)})); }
                        }
                        buf.push_str(&render_item(&files[*fi], it, opts, &spec));
                        buf.push('\n');
                    }
                    None => lost.push(json!({"item": name, "reason": "item not found"})),
                },
                Decl::Fn(fs) => {
                    let qual = match &m.name { Some(nm) => format!("{}::{}", nm, fs.name), None => fs.name.clone() };
                    match ix.fns.get(&fs.name) {
                        None => {
                            lost.push(json!({"fn": qual, "reason": "function not found in the source"}));
                        }
                        Some(item) => {
                            let sf = &files[item.file];
                            let is_bounded = bounded.contains(&qual);
                            let mut lost_anchors = vec![];
                            let start_line = buf.matches('\n').count() + 1;
                            let (text, info) = render_fn(sf, item, fs, &spec, &m.bounds, is_bounded, vacuity, &mut lost_anchors, if noinline { None } else { Some((&ix, &files)) });
                            buf.push_str(&text);
                            buf.push('\n');
                            let end_line = buf.matches('\n').count();
                            let s = item.sig.span().start().line;
                            let e = item.block.span().end().line;
                            fnreport.push(json!({
                                "fn": qual, "file": sf.path, "src_start": s, "src_end": e,
                                "out_start": start_line, "out_end": end_line,
                                "assumed": fs.assume, "external": fs.assume || is_bounded, "bounded": is_bounded,
                                "loops": info.loops, "loops_without_decreases": info.no_decreases,
                                "unspecified_loops": info.unspecified_loops,
                                "inlined": info.inlined, "rewrites": info.rewrites,
                                "lost_anchors": lost_anchors,
                                "proved_in": fs.proved_in,
                                "src": &sf.text[info.range.clone()],
                            }));
                        }
                    }
                }
            }
        }
        if m.name.is_some() {
            buf.push_str("}\n");
        }
    }
    buf.push_str("fn main() {}\n} // verus!\n");
    if let Err(e) = std::fs::write(&out, &buf) {
        eprintln!("cannot write: {}", e);
        std::process::exit(2);
    }
    println!("{}", serde_json::to_string(&json!({
        "unit": unit, "files": report_files, "fns": fnreport, "lost": lost,
        "preludes": spec.preludes.iter().map(|p| p.0.clone()).collect::<Vec<_>>(),
    })).unwrap());
}
