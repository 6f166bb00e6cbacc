use crate::spec::*;
use crate::{FnItem, Index, SourceFile};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Default)]
pub struct FnInfo {
    pub loops: usize,
    pub no_decreases: Vec<usize>,
    pub unspecified_loops: Vec<usize>,
    pub inlined: Vec<String>,
    pub rewrites: BTreeMap<String, usize>,
    pub range: Range<usize>,
}

struct State<'a> {
    inner: Option<(String, String)>,
    fs: &'a FnSpec,
    unit: &'a UnitSpec,
    loop_counter: usize,
    lets: BTreeMap<String, usize>,
    assigns: BTreeMap<String, usize>,
    calls: BTreeMap<String, usize>,
    used_hints: BTreeSet<usize>,
    info: FnInfo,
    inline: Option<(&'a Index<'a>, &'a Vec<SourceFile>)>,
    declared: BTreeSet<String>,
    self_ty: Option<String>,
    depth: usize,
    returns: usize,
    closure_depth: usize,
    // innermost loop: Some(start of the tail loop) when `break V` can be read as `return V`
    tail_loop: Option<usize>,
    in_tail: Vec<bool>,
}

impl<'a> State<'a> {
    fn hint(&mut self, pos: &str) -> String {
        let mut s = String::new();
        for (i, (p, t)) in self.fs.hints.iter().enumerate() {
            if p == pos {
                self.used_hints.insert(i);
                s.push_str(t);
            }
        }
        s
    }
    fn rw(&mut self, k: &str) {
        *self.info.rewrites.entry(k.to_string()).or_insert(0) += 1;
    }
}

fn rng<T: Spanned>(n: &T) -> Range<usize> {
    n.span().byte_range()
}

struct R<'s, 'a> {
    sf: &'s SourceFile,
    st: &'s mut State<'a>,
    edits: Vec<(Range<usize>, String)>,
    self_rename: Option<String>,
}

fn apply(src: &str, base: Range<usize>, mut edits: Vec<(Range<usize>, String)>) -> String {
    edits.sort_by(|a, b| (a.0.start, a.0.end).cmp(&(b.0.start, b.0.end)));
    let mut out = String::new();
    let mut pos = base.start;
    for (r, t) in edits {
        if r.start < pos {
            // overlapping edit: should not happen
            continue;
        }
        out.push_str(&src[pos..r.start]);
        out.push_str(&t);
        pos = r.end;
    }
    out.push_str(&src[pos..base.end]);
    out
}

impl<'s, 'a> R<'s, 'a> {
    fn sub<F: FnOnce(&mut R<'_, 'a>)>(&mut self, range: Range<usize>, f: F) -> String {
        let mut r = R { sf: self.sf, st: self.st, edits: vec![], self_rename: self.self_rename.clone() };
        f(&mut r);
        let e = std::mem::take(&mut r.edits);
        apply(&self.sf.text, range, e)
    }
    fn expr(&mut self, e: &syn::Expr) -> String {
        self.sub(rng(e), |r| r.visit_expr(e))
    }
    fn block_inner(&mut self, b: &syn::Block) -> String {
        // contents between the braces
        let full = rng(b);
        let inner = full.start + 1..full.end - 1;
        self.sub(inner, |r| r.visit_block(b))
    }
    fn put<T: Spanned>(&mut self, n: &T, t: String) {
        self.edits.push((rng(n), t));
    }
    fn stmt_calls(&self, s: &syn::Stmt) -> Vec<String> {
        struct C(Vec<String>, bool);
        impl<'x> Visit<'x> for C {
            fn visit_expr_call(&mut self, e: &'x syn::ExprCall) {
                if let syn::Expr::Path(p) = &*e.func {
                    self.0.push(p.path.segments.last().unwrap().ident.to_string());
                }
                visit::visit_expr_call(self, e);
            }
            fn visit_expr_method_call(&mut self, e: &'x syn::ExprMethodCall) {
                self.0.push(e.method.to_string());
                visit::visit_expr_method_call(self, e);
            }
            // do not descend into nested blocks: those statements are counted themselves
            fn visit_block(&mut self, _b: &'x syn::Block) {}
        }
        let mut c = C(vec![], false);
        c.visit_stmt(s);
        c.0
    }
}

fn pat_idents(p: &syn::Pat, out: &mut Vec<String>) {
    struct C<'b>(&'b mut Vec<String>);
    impl<'x, 'b> Visit<'x> for C<'b> {
        fn visit_pat_ident(&mut self, p: &'x syn::PatIdent) {
            self.0.push(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    C(out).visit_pat(p);
}

fn lhs_name(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        syn::Expr::Unary(u) => lhs_name(&u.expr),
        syn::Expr::Index(i) => lhs_name(&i.expr),
        syn::Expr::Field(f) => {
            if let syn::Member::Named(i) = &f.member { Some(i.to_string()) } else { lhs_name(&f.base) }
        }
        _ => None,
    }
}

fn has_escape(b: &syn::Block) -> bool {
    struct C(bool);
    impl<'x> Visit<'x> for C {
        fn visit_expr_return(&mut self, _e: &'x syn::ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _e: &'x syn::ExprTry) { self.0 = true; }
        fn visit_item(&mut self, _i: &'x syn::Item) { self.0 = true; }
    }
    let mut c = C(false);
    c.visit_block(b);
    c.0
}

fn compound_name(op: &syn::BinOp) -> Option<&'static str> {
    use syn::BinOp::*;
    Some(match op {
        Add(_) | AddAssign(_) => "VAdd::vadd",
        Sub(_) | SubAssign(_) => "VSub::vsub",
        Mul(_) | MulAssign(_) => "VMul::vmul",
        Div(_) | DivAssign(_) => "VDiv::vdiv",
        Rem(_) | RemAssign(_) => "VRem::vrem",
        BitAnd(_) | BitAndAssign(_) => "VBitAnd::vbitand",
        BitOr(_) | BitOrAssign(_) => "VBitOr::vbitor",
        BitXor(_) | BitXorAssign(_) => "VBitXor::vbitxor",
        Shl(_) | ShlAssign(_) => "VShl::vshl",
        Shr(_) | ShrAssign(_) => "VShr::vshr",
        _ => return None,
    })
}
fn is_assign_op(op: &syn::BinOp) -> bool {
    use syn::BinOp::*;
    matches!(op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitAndAssign(_) | BitOrAssign(_) | BitXorAssign(_) | ShlAssign(_) | ShrAssign(_))
}
fn cmp_name(op: &syn::BinOp) -> Option<&'static str> {
    use syn::BinOp::*;
    Some(match op {
        Eq(_) => "VEq::veq",
        Ne(_) => "VEq::vne",
        Lt(_) => "VOrd::vlt",
        Le(_) => "VOrd::vle",
        Gt(_) => "VOrd::vgt",
        Ge(_) => "VOrd::vge",
        _ => return None,
    })
}

impl<'s, 'a, 'ast> Visit<'ast> for R<'s, 'a> {
    fn visit_item(&mut self, i: &'ast syn::Item) {
        // local `use` items are dropped (the unit's prelude provides the names)
        if let syn::Item::Use(_) = i {
            self.put(i, String::new());
            return;
        }
        // local functions and type aliases are hoisted to module level (main.rs indexes them there)
        if let syn::Item::Fn(_) | syn::Item::Type(_) = i {
            self.st.rw("local fn/type hoisted");
            self.put(i, String::new());
            return;
        }
        visit::visit_item(self, i);
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        for s in &b.stmts {
            let r = rng(s);
            let mut before = String::new();
            let mut after = String::new();
            if let syn::Stmt::Local(l) = s {
                let mut ids = vec![];
                pat_idents(&l.pat, &mut ids);
                for id in ids {
                    let k = { let e = self.st.lets.entry(id.clone()).or_insert(0); *e += 1; *e - 1 };
                    after.push_str(&self.st.hint(&format!("after_let {} {}", id, k)));
                    before.push_str(&self.st.hint(&format!("before_let {} {}", id, k)));
                }
            }
            if let syn::Stmt::Expr(e, Some(_)) = s {
                let l = match e {
                    syn::Expr::Assign(a) => lhs_name(&a.left),
                    syn::Expr::Binary(bi) if is_assign_op(&bi.op) => lhs_name(&bi.left),
                    _ => None,
                };
                if let Some(id) = l {
                    let k = { let e = self.st.assigns.entry(id.clone()).or_insert(0); *e += 1; *e - 1 };
                    after.push_str(&self.st.hint(&format!("after_assign {} {}", id, k)));
                    before.push_str(&self.st.hint(&format!("before_assign {} {}", id, k)));
                }
            }
            for c in self.stmt_calls(s) {
                let k = { let e = self.st.calls.entry(c.clone()).or_insert(0); *e += 1; *e - 1 };
                after.push_str(&self.st.hint(&format!("after_call {} {}", c, k)));
                before.push_str(&self.st.hint(&format!("before_call {} {}", c, k)));
            }
            if let syn::Stmt::Expr(syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_), _) = s {
                let k = self.st.loop_counter;
                before.push_str(&self.st.hint(&format!("pre_loop {}", k)));
                after.push_str(&self.st.hint(&format!("post_loop {}", k)));
            }
            if let syn::Stmt::Expr(syn::Expr::Return(_), _) = s {
                let k = self.st.returns;
                self.st.returns += 1;
                before.push_str(&self.st.hint(&format!("before_return {}", k)));
            }
            if !before.is_empty() {
                self.edits.push((r.start..r.start, format!("{}\n", before)));
            }
            self.visit_stmt(s);
            if !after.is_empty() {
                self.edits.push((r.end..r.end, format!("\n{}", after)));
            }
        }
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        if let syn::Stmt::Macro(m) = s {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            match name.as_str() {
                "println" | "eprintln" | "print" | "eprint" | "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => {
                    self.st.rw(&format!("drop {}!", name));
                    self.put(s, "();".into());
                    return;
                }
                "assert" => {
                    if let Ok(args) = m.mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                        if let Some(a) = args.first() {
                            let t = self.expr(a);
                            self.st.rw("assert!");
                            self.put(s, format!("vassert({});", t));
                            return;
                        }
                    }
                }
                "assert_eq" | "assert_ne" => {
                    if let Ok(args) = m.mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                        if args.len() >= 2 {
                            let a = self.expr(&args[0]);
                            let b = self.expr(&args[1]);
                            self.st.rw("assert_eq!");
                            self.put(s, format!("vassert(VEq::{}(&({}), &({})));", if name == "assert_eq" { "veq" } else { "vne" }, a, b));
                            return;
                        }
                    }
                }
                "unreachable" | "panic" | "unimplemented" | "todo" => {
                    self.st.rw("panic!");
                    self.put(s, if m.semi_token.is_some() { "return vunreachable();".into() } else { "vunreachable()".into() });
                    return;
                }
                _ => {}
            }
            if self.st.unit.drop_macros.contains(&name) {
                self.put(s, "();".into());
                return;
            }
        }
        visit::visit_stmt(self, s);
    }
    fn visit_expr_macro(&mut self, e: &'ast syn::ExprMacro) {
        let name = e.mac.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "vec" => {
                // vec![x; n]
                let toks = e.mac.tokens.to_string();
                if let Ok(rep) = syn::parse2::<VecRepeat>(e.mac.tokens.clone()) {
                    let a = self.expr(&rep.0);
                    let b = self.expr(&rep.1);
                    self.st.rw("vec![x;n]");
                    self.put(e, format!("vec_from_elem({}, {})", a, b));
                    return;
                }
                if toks.trim().is_empty() {
                    self.put(e, "Vec::new()".into());
                    return;
                }
                if let Ok(args) = e.mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                    let ts: Vec<String> = args.iter().map(|a| self.expr(a)).collect();
                    self.put(e, format!("vec![{}]", ts.join(", ")));
                    return;
                }
            }
            "unreachable" | "panic" | "unimplemented" | "todo" => {
                self.st.rw("panic!");
                self.put(e, "vunreachable()".into());
            }
            "format" => {
                self.st.rw("format!");
                if self.st.unit.fmt {
                    if let Ok(args) = e.mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                        let args: Vec<&syn::Expr> = args.iter().collect();
                        if let Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. })) = args.first() {
                            let l = l.value();
                            let parts: Vec<&str> = l.split("{}").collect();
                            if parts.len() == args.len() && !parts.iter().any(|p| p.contains('{') || p.contains('}')) {
                                let mut t = "VFmt::vstart()".to_string();
                                for (i, p) in parts.iter().enumerate() {
                                    if !p.is_empty() { t += &format!(".vlit({:?})", p); }
                                    if i + 1 < args.len() { let a = self.expr(args[i + 1]); t += &format!(".varg(&({}))", a); }
                                }
                                self.put(e, t + ".vdone()");
                                return;
                            }
                        }
                    }
                }
                self.put(e, "vformat()".into());
            }
            _ => {}
        }
    }
    fn visit_expr_lit(&mut self, e: &'ast syn::ExprLit) {
        // b"..."  ==>  &[bytes]
        if let syn::Lit::ByteStr(b) = &e.lit {
            let v: Vec<String> = b.value().iter().map(|x| format!("{}u8", x)).collect();
            self.st.rw("byte string");
            self.put(e, format!("&[{}]", v.join(", ")));
        }
    }
    fn visit_expr_path(&mut self, e: &'ast syn::ExprPath) {
        if let Some(n) = &self.self_rename {
            if e.path.is_ident("self") {
                let n = n.clone();
                self.put(e, n);
                return;
            }
        }
        let r = rng(e);
        let t = self.sf.text[r].to_string();
        let t2: String = t.chars().filter(|c| !c.is_whitespace()).collect();
        if let Some((a, b)) = &self.st.inner {
            if *a == t2 {
                let b = b.clone();
                self.put(e, b);
                return;
            }
        }
        // a constant of the file  ==>  its value
        if self.st.unit.inline.contains(&t2) {
            for it in &self.sf.ast.items {
                if let syn::Item::Const(c) = it {
                    if c.ident == t2 {
                        let v = self.expr(&c.expr);
                        self.st.rw(&format!("inline {}", t2));
                        self.put(e, v);
                        return;
                    }
                }
            }
        }
        for (a, b) in &self.st.unit.paths {
            if *a == t2 {
                let b = b.clone();
                self.st.rw(&format!("path {}", a));
                self.put(e, b);
                return;
            }
        }
    }
    fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
        if !self.st.fs.ops && matches!(e.op, syn::BinOp::BitOrAssign(_) | syn::BinOp::BitAndAssign(_)) {
            // also defined on bool, where Verus has no strict operator
            let name = compound_name(&e.op).unwrap();
            let l = self.expr(&e.left);
            let r = self.expr(&e.right);
            self.st.rw("operator");
            self.put(e, format!("{} = {}({}, {})", l, name, l, r));
            return;
        }
        if self.st.fs.ops {
            if is_assign_op(&e.op) {
                let name = compound_name(&e.op).unwrap();
                let l = self.expr(&e.left);
                let r = self.expr(&e.right);
                self.st.rw("operator");
                self.put(e, format!("{} = {}({}, {})", l, name, l, r));
                return;
            }
            if let Some(name) = compound_name(&e.op) {
                let l = self.expr(&e.left);
                let r = self.expr(&e.right);
                self.st.rw("operator");
                self.put(e, format!("{}({}, {})", name, l, r));
                return;
            }
            if let Some(name) = cmp_name(&e.op) {
                let l = self.expr(&e.left);
                let r = self.expr(&e.right);
                self.st.rw("comparison");
                self.put(e, format!("{}(&({}), &({}))", name, l, r));
                return;
            }
        }
        visit::visit_expr_binary(self, e);
    }
    // x[a..b]  ==>  (*x.vslice(a, b))
    fn visit_expr_index(&mut self, e: &'ast syn::ExprIndex) {
        if let (true, syn::Expr::Range(r)) = (self.st.unit.slices, &*e.index) {
            if let (Some(b), syn::RangeLimits::HalfOpen(_)) = (&r.end, &r.limits) {
                let x = self.expr(&e.expr);
                let a = match &r.start { Some(a) => self.expr(a), None => "0".to_string() };
                let b = self.expr(b);
                self.st.rw("slice");
                self.put(e, format!("(*{}.vslice({}, {}))", x, a, b));
                return;
            }
        }
        visit::visit_expr_index(self, e);
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        let k = self.st.loop_counter;
        self.st.loop_counter += 1;
        let inv = self.loop_spec(k);
        let before = self.st.hint(&format!("before_loop {}", k));
        let after = self.st.hint(&format!("after_loop {}", k));
        let start = self.st.hint(&format!("loop_start {}", k));
        let end = self.st.hint(&format!("loop_end {}", k));
        let lab = self.label(&e.label);
        if let syn::Expr::Let(_) = &*e.cond {
            // while let PAT = EXPR { .. }  ==>  loop { if let PAT = EXPR { .. } else { break; } }
            let c = self.expr(&e.cond);
            let body = self.block_inner(&e.body);
            self.st.rw("while-let");
            self.put(e, format!("{{\n{}\n{}loop\n{}\n{{ if {} {{\n{}{}\n{}}} else {{ break; }} }}\n{}}}", before, lab, inv, c, start, body, end, after));
            return;
        }
        let c = self.expr(&e.cond);
        let body = self.block_inner(&e.body);
        self.put(e, format!("{{\n{}\n{}while {}\n{}\n{{\n{}{}\n{}}}\n{}}}", before, lab, c, inv, start, body, end, after));
    }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        let k = self.st.loop_counter;
        self.st.loop_counter += 1;
        let inv = self.loop_spec(k);
        let before = self.st.hint(&format!("before_loop {}", k));
        let after = self.st.hint(&format!("after_loop {}", k));
        let start = self.st.hint(&format!("loop_start {}", k));
        let end = self.st.hint(&format!("loop_end {}", k));
        let lab = self.label(&e.label);
        let tail = self.st.depth == 0 && self.st.tail_loop == Some(rng(e).start);
        self.st.in_tail.push(tail);
        let body = self.block_inner(&e.body);
        self.st.in_tail.pop();
        let _ = after;
        self.put(e, format!("{{\n{}\n{}loop\n{}\n{{\n{}{}\n{}}}\n}}", before, lab, inv, start, body, end));
    }
    fn visit_expr_break(&mut self, e: &'ast syn::ExprBreak) {
        // a value leaving a loop that is the tail of the function is the function's result
        if let (Some(v), None) = (&e.expr, &e.label) {
            if self.st.in_tail.last() == Some(&true) {
                let t = self.expr(v);
                self.st.rw("break-value");
                self.put(e, format!("return {}", t));
                return;
            }
        }
        visit::visit_expr_break(self, e);
    }
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        let k = self.st.loop_counter;
        self.st.loop_counter += 1;
        self.st.rw("for-loop");
        let lab = self.label(&e.label);
        let pat = self.sub(rng(&*e.pat), |r| r.visit_pat(&e.pat));
        let mut src = match &*e.expr {
            // `for x in E.iter()` is `for x in &E`
            syn::Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => format!("&{}", self.expr(&m.receiver)),
            x => self.expr(x),
        };
        if let Some(s) = self.st.fs.opts.get(&format!("for{}", k)).filter(|x| *x != "shared") {
            // iterate by a named adaptor of the prelude instead of the generic one
            src = format!("{}({})", s, src);
        }
        let before = self.st.hint(&format!("before_loop {}", k));
        let after = self.st.hint(&format!("after_loop {}", k));
        let start = self.st.hint(&format!("loop_start {}", k));
        let end = self.st.hint(&format!("loop_end {}", k));
        let user = self.st.fs.loops.get(&k).cloned().unwrap_or_default();
        if self.st.fs.loops.get(&k).is_none() {
            self.st.info.unspecified_loops.push(k);
        }
        // `for x in &mut v` over a vector: index loop
        // (`forK=shared`: the body does not write, iterate over a shared reference instead)
        let shared = self.st.fs.opts.get(&format!("for{}", k)).map(|x| x == "shared").unwrap_or(false);
        if let (true, syn::Expr::Reference(rf)) = (shared, &*e.expr) {
            src = format!("&{}", self.expr(&rf.expr));
        }
        if let syn::Expr::Reference(rf) = &*e.expr {
            if rf.mutability.is_some() && !shared {
                let v = self.expr(&rf.expr);
                let body = self.block_inner(&e.body);
                let invs = if user.trim().is_empty() { String::new() } else { user };
                self.put(e, format!(
                    "{{ let mut ix_{k}: usize = 0; let ghost len_{k} = {v}@.len();\n{before}\n{lab}while ix_{k} < {v}.len()\ninvariant ix_{k} <= {v}@.len(), {v}@.len() == len_{k},\n{invs}\ndecreases {v}@.len() - ix_{k}\n{{ {start} {{ let {pat} = &mut {v}[ix_{k}];\n{body} }}\nix_{k} = ix_{k} + 1;\n{end} }}\n{after}}}"
                ));
                return;
            }
        }
        // `for v in m.values_mut()` / `for (k, v) in m.iter_mut()` / `for (k, v) in &mut m` over a map:
        // walk the keys, one mutable borrow at a time
        if let syn::Expr::MethodCall(mc) = &*e.expr {
            if (mc.method == "values_mut" || mc.method == "iter_mut") && mc.args.is_empty() {
                self.st.rw("values_mut loop");
                let v = self.expr(&mc.receiver);
                let body = self.block_inner(&e.body);
                let (invs, tail) = split_clauses(&user);
                let bind = if mc.method == "values_mut" {
                    format!("let {pat} = {v}.get_mut(&key_{k}).unwrap();")
                } else {
                    format!("let {pat} = (&key_{k}, {v}.get_mut(&key_{k}).unwrap());")
                };
                self.put(e, format!(
                    "{{ let ghost m_{k} = {v}@; let mut it_{k} = {v}.vkeys();\n{before}\n{lab}while it_{k}.vhas_next()\ninvariant\n  keyseq(it_{k}.items(), m_{k}.dom()), {v}@.dom() =~= m_{k}.dom(), 0 <= it_{k}.pos() <= it_{k}.items().len(),\n forall|j_: int| it_{k}.pos() <= j_ < it_{k}.items().len() ==> {v}@[#[trigger] it_{k}.items()[j_]] == m_{k}[it_{k}.items()[j_]],\n{invs}\n{tail}\ndecreases it_{k}.items().len() - it_{k}.pos()\n{{ let key_{k} = it_{k}.vnext();\n{start}{{ {bind}\n{body} }}\n{end} }}\n{after}}}"
                ));
                return;
            }
        }
        let body = self.block_inner(&e.body);
        // a first line may hold what is only true while the loop has not been left
        let (except, user) = match user.trim().strip_prefix("invariant_except_break") {
            Some(r) => match r.split_once('\n') { Some((a, b)) => (format!("invariant_except_break{}\n", a), b.to_string()), None => (format!("invariant_except_break{}\n", r), String::new()) },
            None => (String::new(), user),
        };
        // user text may carry its own clauses; the invariant keyword is ours
        let (invs, tail) = split_clauses(&user);
        self.put(e, format!(
            "{{ let src_{k} = {src}; let ghost g_{k} = src_{k}; let mut it_{k} = VIntoIter::vinto(src_{k});\n{before}\n{lab}while it_{k}.vhas_next()\n{except}invariant\n  VIntoIter::vitems_ok(g_{k}, it_{k}.items()), 0 <= it_{k}.pos() <= it_{k}.items().len(),\n{invs}\n{tail}\ndecreases it_{k}.items().len() - it_{k}.pos()\n{{ let {pat} = it_{k}.vnext();\n{start}{body}\n{end} }}\n{after}}}"
        ));
    }
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*e.func {
            let name = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            let name = match &self.st.self_ty { Some(t) => name.replacen("Self::", &format!("{}::", t), 1), None => name };
            if let Some(t) = self.try_inline(&name, None, &e.args) {
                self.put(e, t);
                return;
            }
        }
        visit::visit_expr_call(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        let m = e.method.to_string();
        if let syn::Expr::Path(p) = &*e.receiver {
            if p.path.is_ident("self") {
                if let Some(t) = self.st.self_ty.clone() {
                    if let Some(txt) = self.try_inline(&format!("{}::{}", t, m), Some("self"), &e.args) {
                        self.put(e, txt);
                        return;
                    }
                }
            }
        }
        // X.map_or(D, |a| E)  ==>  match X { Some(a) => E, None => D }
        if m == "map_or" && e.args.len() == 2 {
            if let syn::Expr::Closure(c) = &e.args[1] {
                if c.inputs.len() == 1 {
                    let recv = self.expr(&e.receiver);
                    let d = self.expr(&e.args[0]);
                    let pat = self.sf.text[rng(&c.inputs[0])].to_string();
                    let body = self.expr(&c.body);
                    self.st.rw("map_or");
                    self.put(e, format!("(match {} {{ Some({}) => {}, None => {} }})", recv, pat, body, d));
                    return;
                }
            }
        }
        if (m == "unwrap_or_else") && e.args.len() == 1 {
            if let syn::Expr::Closure(c) = &e.args[0] {
                if c.inputs.is_empty() {
                    let recv = self.expr(&e.receiver);
                    let body = self.expr(&c.body);
                    self.st.rw("unwrap_or_else");
                    self.put(e, format!("(match {} {{ Some(x__) => x__, None => {} }})", recv, body));
                    return;
                }
            }
        }
        // X.map_err(|e| E)  ==>  match X { Ok(v) => Ok(v), Err(e) => Err(E) }
        if m == "map_err" && e.args.len() == 1 {
            if let syn::Expr::Closure(c) = &e.args[0] {
                if c.inputs.len() == 1 {
                    let recv = self.expr(&e.receiver);
                    let pat = self.sf.text[rng(&c.inputs[0])].to_string();
                    let body = self.expr(&c.body);
                    self.st.rw("map_err");
                    self.put(e, format!("(match {} {{ Ok(x__) => Ok(x__), Err({}) => Err({}) }})", recv, pat, body));
                    return;
                }
            }
        }
        // M.entry(K).or_insert(V) / .or_insert_with(|| V)  ==>  M.ventry_or_insert(K, V)
        if (m == "or_insert" || m == "or_insert_with") && e.args.len() == 1 {
            if let syn::Expr::MethodCall(en) = &*e.receiver {
                if en.method == "entry" && en.args.len() == 1 {
                    let v = match &e.args[0] {
                        syn::Expr::Closure(c) if m == "or_insert_with" && c.inputs.is_empty() => Some(self.expr(&c.body)),
                        x if m == "or_insert" => Some(self.expr(x)),
                        _ => None,
                    };
                    if let Some(v) = v {
                        let r = self.expr(&en.receiver);
                        let k = self.expr(&en.args[0]);
                        self.st.rw("entry().or_insert");
                        self.put(e, format!("{}.ventry_or_insert({}, {})", r, k, v));
                        return;
                    }
                }
            }
        }
        // C.iter().any(|p| E) / .all(..)  and  C.iter().map(|p| E).collect()  ==>  loops
        if m == "any" || m == "all" || m == "collect" {
            let (it, cl) = if m == "collect" {
                match &*e.receiver {
                    syn::Expr::MethodCall(mm) if mm.method == "map" && mm.args.len() == 1 => (Some(&*mm.receiver), Some(&mm.args[0])),
                    _ => (None, None),
                }
            } else if e.args.len() == 1 { (Some(&*e.receiver), Some(&e.args[0])) } else { (None, None) };
            if let (Some(syn::Expr::MethodCall(im)), Some(syn::Expr::Closure(c))) = (it, cl) {
                if (im.method == "iter" || im.method == "into_iter" || im.method == "keys" || im.method == "values") && im.args.is_empty() && c.inputs.len() == 1 {
                    let k = self.st.loop_counter;
                    self.st.loop_counter += 1;
                    let recv = self.expr(&im.receiver);
                    let src = if im.method == "iter" { format!("&{}", recv) } else if im.method == "into_iter" { recv } else { format!("{}.{}()", recv, im.method) };
                    let pat = self.sf.text[rng(&c.inputs[0])].to_string();
                    let body = self.expr(&c.body);
                    let user = self.st.fs.loops.get(&k).cloned().unwrap_or_default();
                    if user.is_empty() { self.st.info.unspecified_loops.push(k); }
                    let (invs, tail) = split_clauses(&user);
                    let before = self.st.hint(&format!("before_loop {}", k));
                    let after = self.st.hint(&format!("after_loop {}", k));
                    let start = self.st.hint(&format!("loop_start {}", k));
                    let end = self.st.hint(&format!("loop_end {}", k));
                    self.st.rw(&format!(".iter().{}()", m));
                    let (init, cond, step) = match m.as_str() {
                        "any" => ("false", format!("!acc_{k} && "), format!("if {body} {{ acc_{k} = true; }}")),
                        "all" => ("true", format!("acc_{k} && "), format!("if !({body}) {{ acc_{k} = false; }}")),
                        _ => ("Vec::new()", String::new(), format!("acc_{k}.push({body});")),
                    };
                    self.put(e, format!(
                        "{{ let src_{k} = {src}; let ghost g_{k} = src_{k}; let mut it_{k} = VIntoIter::vinto(src_{k}); let mut acc_{k} = {init};\n{before}\nwhile {cond}it_{k}.vhas_next()\ninvariant\n  VIntoIter::vitems_ok(g_{k}, it_{k}.items()), 0 <= it_{k}.pos() <= it_{k}.items().len(),\n{invs}\n{tail}\ndecreases it_{k}.items().len() - it_{k}.pos()\n{{ let {pat} = it_{k}.vnext();\n{start}{step}\n{end} }}\n{after}acc_{k} }}"
                    ));
                    return;
                }
            }
        }
        // X.map_err(..).map(|p| E)  ==>  match
        if m == "map" && e.args.len() == 1 {
            if let (syn::Expr::Closure(c), syn::Expr::MethodCall(me)) = (&e.args[0], &*e.receiver) {
                if me.method == "map_err" && c.inputs.len() == 1 {
                    let recv = self.expr(&e.receiver);
                    let pat = self.sf.text[rng(&c.inputs[0])].to_string();
                    let body = self.expr(&c.body);
                    self.st.rw("Result::map");
                    self.put(e, format!("(match {} {{ Ok({}) => Ok({}), Err(e__) => Err(e__) }})", recv, pat, body));
                    return;
                }
            }
        }
        // OPTION.map(|p| E)  ==>  match
        if m == "map" && e.args.len() == 1 && !self.st.unit.optmap.is_empty() {
            if let syn::Expr::Closure(c) = &e.args[0] {
                if c.inputs.len() == 1 {
                    let recv = self.expr(&e.receiver);
                    let pat = self.sf.text[rng(&c.inputs[0])].to_string();
                    let body = self.expr(&c.body);
                    self.st.rw("Option::map(closure)");
                    self.put(e, format!("(match {} {{ Some({}) => Some({}), None => None }})", recv, pat, body));
                    return;
                }
            }
        }
        // C.iter().cloned().filter(|p| F).map(|p| E).collect()
        if m == "collect" && e.args.is_empty() {
            let mut stages: Vec<(String, Option<syn::ExprClosure>)> = Vec::new();
            let mut cur = &*e.receiver;
            let mut src: Option<String> = None;
            let mut closures = 0;
            while let syn::Expr::MethodCall(mm) = cur {
                let n = mm.method.to_string();
                if (n == "map" || n == "filter") && mm.args.len() == 1 {
                    if let syn::Expr::Closure(c) = &mm.args[0] {
                        if c.inputs.len() != 1 { break; }
                        stages.push((n, Some(c.clone())));
                        closures += 1;
                    } else { break; }
                } else if (n == "cloned" || n == "copied") && mm.args.is_empty() {
                    stages.push(("cloned".into(), None));
                } else if matches!(n.as_str(), "iter" | "into_iter" | "keys" | "values") && mm.args.is_empty() {
                    src = Some(n);
                    break;
                } else { break; }
                cur = &*mm.receiver;
            }
            if let (Some(n), syn::Expr::MethodCall(im), true) = (src.clone(), cur, closures > 0) {
                stages.reverse();
                let k = self.st.loop_counter;
                self.st.loop_counter += 1;
                let recv = self.expr(&im.receiver);
                let mut s = if n == "iter" { format!("&{}", recv) } else if n == "into_iter" { recv } else { format!("{}.{}()", recv, n) };
                while stages.first().map_or(false, |x| x.0 == "cloned") {
                    s = format!("VIntoIter::vinto({}).vcloned()", s);
                    stages.remove(0);
                }
                let user = self.st.fs.loops.get(&k).cloned().unwrap_or_default();
                if user.is_empty() { self.st.info.unspecified_loops.push(k); }
                let (invs, tail) = split_clauses(&user);
                let before = self.st.hint(&format!("before_loop {}", k));
                let after = self.st.hint(&format!("after_loop {}", k));
                let start = self.st.hint(&format!("loop_start {}", k));
                let end = self.st.hint(&format!("loop_end {}", k));
                let mut body = String::new();
                let mut closing = String::new();
                for (i, (n, c)) in stages.iter().enumerate() {
                    if let Some(c) = c {
                        let pat = self.sf.text[rng(&c.inputs[0])].to_string();
                        let b = self.expr(&c.body);
                        if n == "filter" {
                            body += &format!("let keep_{i} = {{ let {pat} = &v_{i}; {b} }};\nif keep_{i} {{ let v_{} = v_{i};\n", i + 1);
                            closing.push('}');
                        } else {
                            body += &format!("let v_{} = {{ let {pat} = v_{i}; {b} }};\n", i + 1);
                        }
                    } else {
                        body += &format!("let v_{} = v_{i}.clone();\n", i + 1);
                    }
                }
                self.st.rw(".iter()...collect() chain");
                self.put(e, format!(
                    "{{ let src_{k} = {s}; let ghost g_{k} = src_{k}; let mut it_{k} = VIntoIter::vinto(src_{k}); let mut acc_{k} = Vec::new();\n{before}\nwhile it_{k}.vhas_next()\ninvariant\n  VIntoIter::vitems_ok(g_{k}, it_{k}.items()), 0 <= it_{k}.pos() <= it_{k}.items().len(),\n{invs}\n{tail}\ndecreases it_{k}.items().len() - it_{k}.pos()\n{{ let v_0 = it_{k}.vnext();\n{start}{body}acc_{k}.push(v_{});\n{closing}\n{end} }}\n{after}VIntoIter::vinto(acc_{k}).collect() }}", stages.len()
                ));
                return;
            }
            // X.into_iter().collect()
            if let syn::Expr::MethodCall(im) = &*e.receiver {
                if im.method == "into_iter" && im.args.is_empty() {
                    let r = self.expr(&im.receiver);
                    self.st.rw("into_iter().collect()");
                    self.put(e, format!("VIntoIter::vinto({}).collect()", r));
                    return;
                }
            }
        }
        if m == "ok_or_else" && e.args.len() == 1 {
            if let syn::Expr::Closure(c) = &e.args[0] {
                if c.inputs.is_empty() {
                    let recv = self.expr(&e.receiver);
                    let body = self.expr(&c.body);
                    self.st.rw("ok_or_else");
                    self.put(e, format!("(match {} {{ Some(x__) => Ok(x__), None => Err({}) }})", recv, body));
                    return;
                }
            }
        }
        // (A..B).collect()  ==>  VIntoIter::vinto(A..B).collect()
        if m == "collect" && e.args.is_empty() {
            let mut r = &*e.receiver;
            while let syn::Expr::Paren(p) = r { r = &p.expr; }
            if let syn::Expr::Range(_) = r {
                let t = self.expr(r);
                self.st.rw("range collect");
                self.put(e, format!("VIntoIter::vinto({}).collect()", t));
                return;
            }
        }
        if m == "expect" && e.args.len() == 1 {
            let recv = self.expr(&e.receiver);
            self.put(e, format!("{}.unwrap()", recv));
            return;
        }
        if let Some(n) = self.st.unit.rename_methods.get(&m) {
            let n = n.clone();
            self.st.rw(&format!("method {}", m));
            self.edits.push((rng(&e.method), n));
        }
        visit::visit_expr_method_call(self, e);
    }
}

struct VecRepeat(syn::Expr, syn::Expr);
impl syn::parse::Parse for VecRepeat {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let a: syn::Expr = i.parse()?;
        let _: syn::Token![;] = i.parse()?;
        let b: syn::Expr = i.parse()?;
        Ok(VecRepeat(a, b))
    }
}

/// splits loop annotation text in (invariants, other clauses such as `ensures ..`)
fn split_clauses(t: &str) -> (String, String) {
    let t = if t.trim_start().starts_with("ensures") { format!("\n{}", t.trim()) } else { t.trim().to_string() };
    let t = t.as_str();
    let t = t.strip_prefix("invariant").unwrap_or(t);
    for kw in ["\n  ensures", "\nensures", "\n  decreases", "\ndecreases"] {
        if let Some(p) = t.find(kw) {
            let tail = t[p..].to_string();
            // `for` loops already have their decreases clause
            if kw.contains("decreases") { return (t[..p].to_string(), String::new()); }
            return (t[..p].to_string(), tail);
        }
    }
    (t.to_string(), String::new())
}

impl<'s, 'a> R<'s, 'a> {
    fn label(&self, l: &Option<syn::Label>) -> String {
        match l {
            Some(l) => format!("{}: ", l.name),
            None => String::new(),
        }
    }
    fn loop_spec(&mut self, k: usize) -> String {
        match self.st.fs.loops.get(&k) {
            Some(s) => {
                let s = s.trim().to_string();
                if !s.contains("decreases") {
                    self.st.info.no_decreases.push(k);
                }
                if s.starts_with("invariant") || s.starts_with("decreases") || s.is_empty() || s.starts_with("ensures") { s } else { format!("invariant {}", s) }
            }
            None => {
                self.st.info.unspecified_loops.push(k);
                self.st.info.no_decreases.push(k);
                String::new()
            }
        }
    }
    fn try_inline(&mut self, name: &str, recv: Option<&str>, args: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>) -> Option<String> {
        let (ix, files) = self.st.inline?;
        if self.st.declared.contains(name) || self.st.depth > 4 {
            return None;
        }
        let item = ix.fns.get(name)?;
        if has_escape(item.block) {
            return None;
        }
        let mut pats = vec![];
        let mut tys = vec![];
        let mut has_self = false;
        for a in &item.sig.inputs {
            match a {
                syn::FnArg::Receiver(r) => {
                    if r.reference.is_none() { return None; }
                    has_self = true;
                }
                syn::FnArg::Typed(t) => {
                    pats.push(files[item.file].text[rng(&*t.pat)].to_string());
                    tys.push(files[item.file].text[rng(&*t.ty)].to_string());
                }
            }
        }
        if has_self != recv.is_some() || pats.len() != args.len() {
            return None;
        }
        if recv.is_some() && self.self_rename.is_some() {
            return None;
        }
        let at: Vec<String> = args.iter().map(|a| self.expr(a)).collect();
        self.st.depth += 1;
        self.st.info.inlined.push(name.to_string());
        let body = {
            let mut r = R { sf: &files[item.file], st: self.st, edits: vec![], self_rename: None };
            r.block_inner(item.block)
        };
        self.st.depth -= 1;
        let typed = item.sig.generics.params.is_empty() && !tys.iter().any(|t| t.contains("impl ") || t.contains('\''));
        let mut s = String::from("{ ");
        if !pats.is_empty() {
            if typed {
                s.push_str(&format!("let ({},): ({},) = ({},);\n", pats.join(", "), tys.join(", "), at.join(", ")));
            } else {
                s.push_str(&format!("let ({},) = ({},);\n", pats.join(", "), at.join(", ")));
            }
        }
        s.push_str(&body);
        s.push_str(" }");
        Some(s)
    }
}

fn render_generics(sf: &SourceFile, g: &syn::Generics, bounds: &BTreeMap<String, String>) -> String {
    if g.params.is_empty() {
        return String::new();
    }
    let mut ps = vec![];
    for p in &g.params {
        match p {
            syn::GenericParam::Type(t) => {
                let n = t.ident.to_string();
                if let Some(b) = bounds.get(&n) {
                    if b == "!" { continue; }
                    ps.push(if b.is_empty() { n } else { format!("{}: {}", n, b) });
                } else {
                    ps.push(sf.text[rng(t)].to_string());
                }
            }
            o => ps.push(sf.text[rng(o)].to_string()),
        }
    }
    if ps.is_empty() { String::new() } else { format!("<{}>", ps.join(", ")) }
}

pub fn render_item(sf: &SourceFile, it: &syn::Item, opts: &BTreeMap<String, String>, _u: &UnitSpec) -> String {
    let mut bounds = BTreeMap::new();
    if let Some(b) = opts.get("bounds") {
        for x in b.split(',') {
            if let Some((a, c)) = x.split_once(':') { bounds.insert(a.to_string(), c.to_string()); }
            else { bounds.insert(x.to_string(), String::new()); }
        }
    }
    let ext = opts.get("attr").map(|a| format!("#[{}]\n", a)).unwrap_or_default();
    match it {
        syn::Item::Struct(s) => {
            let mut o = format!("{}pub struct {}{} ", ext, s.ident, render_generics(sf, &s.generics, &bounds));
            match &s.fields {
                syn::Fields::Named(f) => {
                    o.push_str("{\n");
                    for fd in &f.named {
                        o.push_str(&format!("    pub {}: {},\n", fd.ident.as_ref().unwrap(), &sf.text[rng(&fd.ty)]));
                    }
                    o.push_str("}\n");
                }
                syn::Fields::Unnamed(f) => {
                    let v: Vec<String> = f.unnamed.iter().map(|fd| format!("pub {}", &sf.text[rng(&fd.ty)])).collect();
                    o.push_str(&format!("({});\n", v.join(", ")));
                }
                syn::Fields::Unit => o.push_str(";\n"),
            }
            o
        }
        syn::Item::Enum(s) => {
            let mut o = format!("{}pub enum {}{} {{\n", ext, s.ident, render_generics(sf, &s.generics, &bounds));
            for v in &s.variants {
                o.push_str("    ");
                o.push_str(&v.ident.to_string());
                match &v.fields {
                    syn::Fields::Named(f) => {
                        let x: Vec<String> = f.named.iter().map(|fd| format!("{}: {}", fd.ident.as_ref().unwrap(), &sf.text[rng(&fd.ty)])).collect();
                        o.push_str(&format!(" {{ {} }}", x.join(", ")));
                    }
                    syn::Fields::Unnamed(f) => {
                        let x: Vec<String> = f.unnamed.iter().map(|fd| sf.text[rng(&fd.ty)].to_string()).collect();
                        o.push_str(&format!("({})", x.join(", ")));
                    }
                    syn::Fields::Unit => {}
                }
                o.push_str(",\n");
            }
            o.push_str("}\n");
            o
        }
        syn::Item::Const(c) => {
            format!("pub const {}: {} = {};\n", c.ident, &sf.text[rng(&*c.ty)], &sf.text[rng(&*c.expr)])
        }
        syn::Item::Type(t) => {
            format!("pub type {}{} = {};\n", t.ident, render_generics(sf, &t.generics, &bounds), &sf.text[rng(&*t.ty)])
        }
        o => sf.text[rng(o)].to_string(),
    }
}

pub fn render_fn<'a>(
    sf: &SourceFile,
    item: &FnItem,
    fs: &'a FnSpec,
    unit: &'a UnitSpec,
    bounds: &BTreeMap<String, String>,
    bounded: bool,
    vacuity: bool,
    lost_anchors: &mut Vec<String>,
    inline: Option<(&'a Index<'a>, &'a Vec<SourceFile>)>,
) -> (String, FnInfo) {
    let external = fs.assume || bounded;
    let mut declared = BTreeSet::new();
    for m in &unit.mods {
        for d in &m.decls {
            match d {
                Decl::Fn(f) => { declared.insert(f.name.clone()); }
                Decl::Verbatim(t) => {
                    // hand-declared names in verbatim sections must not be inlined either
                    for w in t.split("fn ").skip(1) {
                        let n: String = w.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                        declared.insert(n);
                    }
                }
                _ => {}
            }
        }
    }
    let self_ty = item.imp.map(|im| crate::type_name(&im.self_ty));
    let has_inner = item.inner || item.block.stmts.iter().any(|s| matches!(s, syn::Stmt::Item(syn::Item::Fn(f)) if f.sig.ident == item.sig.ident));
    let mut st = State {
        inner: if has_inner { Some((item.sig.ident.to_string(), format!("{}__inner", item.sig.ident))) } else { None },
        fs, unit, loop_counter: 0, lets: BTreeMap::new(), assigns: BTreeMap::new(), calls: BTreeMap::new(),
        used_hints: BTreeSet::new(), info: FnInfo::default(), inline, declared, self_ty, depth: 0, returns: 0, closure_depth: 0,
        tail_loop: match item.block.stmts.last() { Some(syn::Stmt::Expr(syn::Expr::Loop(l), None)) => Some(rng(l).start), _ => None }, in_tail: vec![],
    };
    let _ = st.closure_depth;
    let mut out = String::new();
    let method_name = if item.inner { format!("{}__inner", item.sig.ident) } else { item.sig.ident.to_string() };
    if let Some(im) = item.imp {
        let tr = if fs.trait_impl {
            match &im.trait_ { Some((_, p, _)) => format!("{} for ", &sf.text[rng(p)]), None => String::new() }
        } else { String::new() };
        let mut ty = sf.text[rng(&*im.self_ty)].to_string();
        for (a, b) in bounds { if b == "!" { ty = ty.replace(&format!("<{}>", a), ""); } }
        out.push_str(&format!("impl{} {}{} {{\n", render_generics(sf, &im.generics, bounds), tr, ty));
    }
    for a in &fs.attrs {
        out.push_str(&format!("#[{}]\n", a));
    }
    // fn f(mut self)  ==>  fn f(self) with a local of its value
    let mut_self = matches!(item.sig.inputs.first(), Some(syn::FnArg::Receiver(r)) if r.reference.is_none() && r.mutability.is_some());
    if mut_self && !external { st.rw("mut self"); }
    // body first, to learn about the loops
    let body = {
        let mut r = R { sf, st: &mut st, edits: vec![], self_rename: if mut_self { Some("self_v".into()) } else { None } };
        // tail expression
        let is_unit = matches!(item.sig.output, syn::ReturnType::Default);
        let mut tail_edit = None;
        if let Some(syn::Stmt::Expr(e, None)) = item.block.stmts.last() {
            let t = r.st.hint("tail");
            let en = r.st.hint("end");
            if !t.is_empty() && !is_unit {
                tail_edit = Some((rng(e), format!("{}\nlet r__ = ", en), format!(";\n{}\nr__", t)));
            } else if !en.is_empty() || !t.is_empty() {
                let tl = if is_unit { format!("{}{}", en, t) } else { en };
                if is_unit {
                    tail_edit = Some((rng(e), String::new(), format!(";\n{}", tl)));
                } else {
                    tail_edit = Some((rng(e), tl, String::new()));
                }
            }
        } else {
            let t = format!("{}{}", r.st.hint("end"), r.st.hint("tail"));
            if !t.is_empty() {
                let e = rng(item.block).end - 1;
                r.edits.push((e..e, t));
            }
        }
        let full = rng(item.block);
        let inner = full.start + 1..full.end - 1;
        if let Some((tr, a, b)) = tail_edit {
            let init = syn::Block { brace_token: item.block.brace_token, stmts: item.block.stmts[..item.block.stmts.len() - 1].to_vec() };
            // cloned statements keep their spans
            r.visit_block(&init);
            let last = item.block.stmts.last().unwrap().clone();
            let te = r.sub(tr.clone(), |r2| {
                let blk = syn::Block { brace_token: Default::default(), stmts: vec![last] };
                r2.visit_block(&blk);
            });
            r.edits.push((tr, format!("{}{}{}", a, te, b)));
        } else {
            r.visit_block(item.block);
        }
        let e = std::mem::take(&mut r.edits);
        apply(&sf.text, inner, e)
    };
    let mut start = st.hint("start");
    if mut_self && !external { start = format!("{}\nlet mut self_v = self;", start); }
    st.info.loops = st.loop_counter;
    let mut attrs = String::new();
    if external {
        attrs.push_str("#[verifier::external_body]\n");
    } else if !st.info.no_decreases.is_empty() {
        attrs.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
    }
    if !external && st.info.loops > 0 && !fs.opts.contains_key("isolate") {
        attrs.push_str("#[verifier::loop_isolation(false)]\n");
    }
    out.push_str(&attrs);
    // signature
    let vis = if item.imp.is_some() && fs.trait_impl { "" } else { "pub " };
    let inputs: Vec<String> = item.sig.inputs.iter().map(|a| if mut_self && matches!(a, syn::FnArg::Receiver(_)) { "self".to_string() } else { sf.text[rng(a)].to_string() }).collect();
    let outty = match &item.sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => format!(" -> ({}: {})", fs.ret, &sf.text[rng(&**t)]),
    };
    let wh = match &item.sig.generics.where_clause {
        Some(w) => {
            let keep: Vec<String> = w.predicates.iter().filter_map(|p| match p {
                syn::WherePredicate::Type(t) => {
                    let n = crate::type_name(&t.bounded_ty);
                    if bounds.contains_key(&n) { None } else { Some(sf.text[rng(t)].to_string()) }
                }
                o => Some(sf.text[rng(o)].to_string()),
            }).collect();
            if keep.is_empty() { String::new() } else { format!(" where {}", keep.join(", ")) }
        }
        None => String::new(),
    };
    let mut sig = format!("{}fn {}{}({}){}{}\n", vis, method_name, render_generics(sf, &item.sig.generics, bounds), inputs.join(", "), outty, wh);
    for (a, b) in &fs.subst {
        sig = sig.replace(a, b);
    }
    out.push_str(&sig);
    out.push_str(&fs.spec);
    out.push_str("{\n");
    if external {
        out.push_str("unimplemented!()");
    } else {
        if vacuity {
            out.push_str("assert(false); // vacuity probe\n");
        }
        out.push_str(&start);
        let mut b = body;
        for (x, y) in &fs.subst {
            b = b.replace(x, y);
        }
        out.push_str(&b);
    }
    out.push_str("\n}\n");
    if item.imp.is_some() {
        out.push_str("}\n");
    }
    if !external {
        for (i, (p, _)) in fs.hints.iter().enumerate() {
            if !st.used_hints.contains(&i) {
                lost_anchors.push(p.clone());
            }
        }
        for k in fs.loops.keys() {
            if *k >= st.info.loops { lost_anchors.push(format!("loop {}", k)); }
        }
    }
    let r = rng(item.sig).start..rng(item.block).end;
    st.info.range = r;
    (out, std::mem::take(&mut st.info))
}
