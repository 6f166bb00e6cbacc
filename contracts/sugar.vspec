%use ops.rs
%use bigint.rs
%use std.rs
%use iter.rs
%use maps.rs
%use vstring.rs
%path String::new=VString::new
%path String::from=vstring_from
%path std::cmp::min=vmin
%rename_method to_string=vto_string
%import ast.fns assume=rules
%verbatim
pub use self::LogArgument::*;
pub use self::Access::*;
pub fn vmin(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
impl Clone for Meta { #[verifier::external_body] fn clone(&self) -> (r: Meta) ensures r == *self { unimplemented!() } }
impl Clone for Access { #[verifier::external_body] fn clone(&self) -> (r: Access) ensures r == *self { unimplemented!() } }
impl Clone for Expression { #[verifier::external_body] fn clone(&self) -> (r: Expression) ensures r == *self { unimplemented!() } }
// strings as the bytes of their UTF-8 form see them
pub uninterp spec fn clen(c: char) -> nat;
pub broadcast proof fn axiom_clen(c: char) ensures 1 <= #[trigger] clen(c) <= 4 { admit(); }
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }
pub open spec fn boundary(s: Seq<char>, i: nat) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == i }
impl VString {
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == blen(self@) { unimplemented!() }
    #[verifier::external_body] pub fn is_char_boundary(&self, i: usize) -> (r: bool) ensures r == boundary(self@, i as nat) { unimplemented!() }
    #[verifier::external_body] pub fn split_at(&self, i: usize) -> (r: (&str, &str)) requires boundary(self@, i as nat) ensures r.0@ + r.1@ == self@, blen(r.0@) == i { unimplemented!() }
}
pub proof fn lemma_blen_take(s: Seq<char>, a: int, b: int) requires 0 <= a <= b <= s.len() ensures blen(s.take(a)) <= blen(s.take(b)) <= blen(s) decreases s.len()
{
    broadcast use axiom_clen;
    assert(s.take(s.len() as int) =~= s);
    if s.len() > 0 {
        let d = s.drop_last();
        if b < s.len() { assert(s.take(a) =~= d.take(a)); assert(s.take(b) =~= d.take(b)); lemma_blen_take(d, a, b); }
        else if a < s.len() { assert(s.take(a) =~= d.take(a)); lemma_blen_take(d, a, a); }
    }
}
pub open spec fn no_tuple() -> spec_fn(Expression) -> bool { |e: Expression| !(e is Tuple) }
pub open spec fn any_s() -> spec_fn(Statement) -> bool { |s: Statement| true }
pub open spec fn no_anon() -> spec_fn(Expression) -> bool { |e: Expression| !(e is AnonymousComp) }
%end
%source program_structure/src/abstract_syntax_tree/expression_impl.rs
%fn Expression::is_tuple ret=r
    ensures r == (self is Tuple)
%fn Expression::is_variable ret=r
    ensures r == (self is Variable)
%fn Expression::is_call ret=r
    ensures r == (self is Call)
%fn Expression::is_anonymous_comp ret=r
    ensures r == (self is AnonymousComp)
%fn Expression::contains_tuple ret=r
    ensures r == !all_e(*self, no_tuple())
    decreases self
%at loop_start 0
proof { if all_es(*args, args@.len(), no_tuple()) { lemma_all_es(*args, args@.len(), no_tuple(), it_0.pos() - 1); } }
%loop 0
    all_es(*args, it_0.pos() as nat, no_tuple()),
%at loop_start 1
proof { if all_es(*params, params@.len(), no_tuple()) { lemma_all_es(*params, params@.len(), no_tuple(), it_1.pos() - 1); } }
%loop 1
    all_es(*params, it_1.pos() as nat, no_tuple()),
%at loop_start 2
proof { if all_es(*signals, signals@.len(), no_tuple()) { lemma_all_es(*signals, signals@.len(), no_tuple(), it_2.pos() - 1); } }
%loop 2
    all_es(*signals, it_2.pos() as nat, no_tuple()),
%at loop_start 3
proof { if all_acc(*access, access@.len(), no_tuple()) { lemma_all_acc(*access, access@.len(), no_tuple(), it_3.pos() - 1); } }
%loop 3
    all_acc(*access, it_3.pos() as nat, no_tuple()),
%fn Expression::contains_anonymous_comp ret=r
    ensures r == !all_e(*self, no_anon())
    decreases self
%at loop_start 0
proof { if all_es(*args, args@.len(), no_anon()) { lemma_all_es(*args, args@.len(), no_anon(), it_0.pos() - 1); } }
%loop 0
    all_es(*args, it_0.pos() as nat, no_anon()),
%at loop_start 1
proof { if all_acc(*access, access@.len(), no_anon()) { lemma_all_acc(*access, access@.len(), no_anon(), it_1.pos() - 1); } }
%loop 1
    all_acc(*access, it_1.pos() as nat, no_anon()),
%source program_structure/src/abstract_syntax_tree/statement_impl.rs
%fn Statement::contains_anonymous_comp ret=r
    ensures r == !all_s(*self, any_s(), no_anon())
    decreases self
%at loop_start 0
proof { if all_ss(*initializations, initializations@.len(), any_s(), no_anon()) { lemma_all_ss(*initializations, initializations@.len(), any_s(), no_anon(), it_0.pos() - 1); } }
%loop 0
    all_ss(*initializations, it_0.pos() as nat, any_s(), no_anon()),
%at loop_start 1
proof { if all_es(*dimensions, dimensions@.len(), no_anon()) { lemma_all_es(*dimensions, dimensions@.len(), no_anon(), it_1.pos() - 1); } }
%loop 1
    all_es(*dimensions, it_1.pos() as nat, no_anon()),
%at loop_start 2
proof { if all_acc(*access, access@.len(), no_anon()) { lemma_all_acc(*access, access@.len(), no_anon(), it_2.pos() - 1); } }
%loop 2
    all_acc(*access, it_2.pos() as nat, no_anon()),
%at loop_start 3
proof { if all_log(*args, args@.len(), no_anon()) { lemma_all_log(*args, args@.len(), no_anon(), it_3.pos() - 1); } }
%loop 3
    all_log(*args, it_3.pos() as nat, no_anon()),
%at loop_start 4
proof { if all_ss(*stmts, stmts@.len(), any_s(), no_anon()) { lemma_all_ss(*stmts, stmts@.len(), any_s(), no_anon(), it_4.pos() - 1); } }
%loop 4
    all_ss(*stmts, it_4.pos() as nat, any_s(), no_anon()),

%source program_structure/src/abstract_syntax_tree/expression_impl.rs
%fn Expression::make_anonymous_parallel ret=r
    ensures match self { Expression::AnonymousComp { meta, id, params, signals, names, .. } => r == (Expression::AnonymousComp { meta, id, params, signals, names, is_parallel: true }), _ => r == self }
%source program_structure/src/abstract_syntax_tree/expression_builders.rs
%fn build_tuple ret=r
    ensures r == (Expression::Tuple { meta, values })
%fn build_array_in_line ret=r
    ensures r == (Expression::ArrayInLine { meta, values })
%fn build_call ret=r
    ensures r == (Expression::Call { meta, id, args })
%fn build_parallel_op ret=r
    ensures r == (Expression::ParallelOp { meta, rhe: Box::new(rhe) })
%fn build_anonymous_component ret=r
    ensures r == (Expression::AnonymousComp { meta, id, params, signals, names, is_parallel })
%source program_structure/src/abstract_syntax_tree/statement_builders.rs
%fn build_block ret=r
    ensures r == (Statement::Block { meta, stmts })
%fn build_substitution ret=r
    ensures r == (Statement::Substitution { meta, var, access, op, rhe })
%fn build_initialization_block ret=r
    ensures r == (Statement::InitializationBlock { meta, xtype, initializations })
%fn build_declaration ret=r
    ensures r == (Statement::Declaration { meta, xtype, name, dimensions, is_constant: true, is_anonymous })
%verbatim
// what a log call prints: characters and values of expressions
pub enum LogItem { Ch(char), Ex(Expression) }
pub open spec fn chars(s: Seq<char>) -> Seq<LogItem> { s.map_values(|c: char| LogItem::Ch(c)) }
pub open spec fn arg_view(a: LogArgument) -> Seq<LogItem> { match a { LogArgument::LogStr(s) => chars(s@), LogArgument::LogExp(e) => seq![LogItem::Ex(e)] } }
pub open spec fn log_view(a: Seq<LogArgument>) -> Seq<LogItem> decreases a.len() { if a.len() == 0 { seq![] } else { log_view(a.drop_last()) + arg_view(a.last()) } }
// no piece of text exceeds the buffer the WASM runtime reads messages from
pub open spec fn short(a: Seq<LogArgument>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i] matches LogArgument::LogStr(s) ==> blen(s@) <= 230) }
pub proof fn lemma_log_cat(a: Seq<LogArgument>, b: Seq<LogArgument>) ensures log_view(a + b) == log_view(a) + log_view(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(log_view(a) + log_view(b) =~= log_view(a)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_log_cat(a, b.drop_last()); assert(log_view(a + b) =~= log_view(a) + log_view(b)); }
}
pub proof fn lemma_log_push(a: Seq<LogArgument>, x: LogArgument) ensures log_view(a.push(x)) == log_view(a) + arg_view(x) { assert(a.push(x).drop_last() =~= a); }
%end
%fn build_log_call ret=r
    ensures r matches Statement::LogCall { meta: m, args: a } && m == meta && log_view(a@) == log_view(args@) && short(a@)
%at start
let ghost args0 = args@;
%loop 0
    log_view(new_args@) == log_view(args0.take(it_0.pos() as int)), short(new_args@), it_0.items() == args0,
%at loop_start 0
let ghost na = new_args@;
proof { let k = it_0.pos() - 1; assert(args0.take(k + 1).drop_last() =~= args0.take(k)); }
%at loop_end 0
proof {
    assert forall|x: LogArgument| new_args@ == #[trigger] na.push(x) implies log_view(new_args@) == log_view(na) + arg_view(x) by { lemma_log_push(na, x); }
    assert forall|t: Seq<LogArgument>| new_args@ == #[trigger] (na + t) implies log_view(new_args@) == log_view(na) + log_view(t) by { lemma_log_cat(na, t); }
    let k = it_0.pos() - 1;
    assert(new_args@ == na.push(args0[k]) || args0[k] is LogStr);
    assert(log_view(new_args@) == log_view(na) + arg_view(args0[k]));
}
%at tail
proof { assert(args0.take(args0.len() as int) =~= args0); }
%fn split_string ret=r
    ensures log_view(r@) == chars(str@), short(r@)
%loop 0
    log_view(v@) + chars(cur@) == chars(str@), short(v@), sub_len == 230,
    decreases cur@.len()
%at loop_start 0
let ghost v0 = v@; let ghost cur0 = cur@;
proof { lemma_blen_take(cur@, 1, cur@.len() as int); assert(cur@.take(1).drop_last() =~= seq![]); assert(blen(cur@.take(1)) == clen(cur@[0])) by { reveal_with_fuel(blen, 2); } assert(cur@.take(0) =~= seq![]); assert(boundary(cur@, clen(cur@[0]))); assert(cur@.take(cur@.len() as int) =~= cur@); }
broadcast use {axiom_clen, axiom_key_view};
%at loop_end 0
proof {
    assert(v@.len() == v0.len() + 1 && v@.drop_last() =~= v0);
    let c = v@.last(); lemma_log_push(v0, c); assert(v@ =~= v0.push(c));
    assert(arg_view(c) + chars(cur@) =~= chars(cur0));
    assert(log_view(v@) + chars(cur@) =~= log_view(v0) + chars(cur0));
}
%loop 1
    boundary(cur@, clen(cur@[0])),
    end <= 230, end <= blen(cur@), cur@.len() > 0, end >= clen(cur@[0]),
    decreases end
%source program_structure/src/abstract_syntax_tree/ast.rs
%fn build_array_access ret=r
    ensures r == Access::ArrayAccess(expr)

%mod data
%verbatim
use super::ast::*;
#[verifier::external_body]
pub struct WireData { x: u8 }
pub type WireInfo = HashMap<VString, WireData>;
pub type WireDeclarationOrder = Vec<(VString, usize)>;
// the source files: which line a position is on
#[verifier::external_body]
pub struct FileLibrary { x: u8 }
pub uninterp spec fn line_of(f: FileLibrary, start: usize, file: usize) -> usize;
impl FileLibrary { #[verifier::external_body] pub fn get_line(&self, start: usize, file: FileID) -> (r: Option<usize>) ensures r == Some(line_of(*self, start, file)) { unimplemented!() } }
%end
%source program_structure/src/program_library/template_data.rs
%item TemplateInfo
%item TemplateData
%fn TemplateData::get_inputs ret=r
    ensures *r == self.input_wires
%fn TemplateData::get_declaration_inputs ret=r
    ensures *r == self.input_declarations
%fn TemplateData::get_declaration_outputs ret=r
    ensures *r == self.output_declarations

%mod sugar
%ops on
%source parser/src/syntax_sugar_remover.rs
%verbatim
use super::ast::*;
use super::data::*;
mod program_structure { pub mod ast { pub use super::super::super::ast::LogArgument; } }
#[verifier::external_body]
pub fn tuple_general_error(meta: Meta, msg: String) -> (r: Report) { unimplemented!() }
#[verifier::external_body]
pub fn anonymous_general_error(meta: Meta, msg: String) -> (r: Report) { unimplemented!() }
// tuples only stand at the top of e, or directly inside such tuples
pub open spec fn tup_top(e: Expression) -> bool decreases e { match e { Expression::Tuple { values, .. } => tup_tops(values, values@.len()), _ => all_e(e, no_tuple()) } }
pub open spec fn tup_tops(v: Vec<Expression>, n: nat) -> bool decreases v, n { if n == 0 { true } else { n <= v@.len() && tup_tops(v, (n - 1) as nat) && tup_top(v@[n - 1]) } }
pub open spec fn tup_log(v: Vec<LogArgument>, n: nat) -> bool decreases v, n { if n == 0 { true } else { n <= v@.len() && tup_log(v, (n - 1) as nat) && match v@[n - 1] { LogArgument::LogExp(e) => tup_top(e), _ => true } } }
// tuples appear in s only where they can be expanded
pub open spec fn tup_s(s: Statement) -> bool decreases s {
    match s {
        Statement::MultSubstitution { lhe, rhe, .. } => tup_top(lhe) && tup_top(rhe),
        Statement::IfThenElse { cond, if_case, else_case, .. } => all_e(cond, no_tuple()) && tup_s(*if_case) && match else_case { Some(e) => tup_s(*e), None => true },
        Statement::While { cond, stmt, .. } => all_e(cond, no_tuple()) && tup_s(*stmt),
        Statement::LogCall { args, .. } => tup_log(args, args@.len()),
        Statement::Assert { arg, .. } => all_e(arg, no_tuple()),
        Statement::Return { value, .. } => all_e(value, no_tuple()),
        Statement::ConstraintEquality { lhe, rhe, .. } => all_e(lhe, no_tuple()) && all_e(rhe, no_tuple()),
        Statement::Declaration { dimensions, .. } => all_es(dimensions, dimensions@.len(), no_tuple()),
        Statement::InitializationBlock { initializations, .. } => tup_ss(initializations, initializations@.len()),
        Statement::Block { stmts, .. } => tup_ss(stmts, stmts@.len()),
        Statement::Substitution { access, rhe, .. } => all_acc(access, access@.len(), no_tuple()) && tup_top(rhe),
        Statement::UnderscoreSubstitution { .. } => false,
    }
}
pub open spec fn tup_ss(v: Vec<Statement>, n: nat) -> bool decreases v, n { if n == 0 { true } else { n <= v@.len() && tup_ss(v, (n - 1) as nat) && tup_s(v@[n - 1]) } }
pub proof fn lemma_tup_tops(v: Vec<Expression>, n: nat, i: int) requires tup_tops(v, n), 0 <= i < n ensures tup_top(v@[i]), n <= v@.len() decreases n { if i < n - 1 { lemma_tup_tops(v, (n - 1) as nat, i); } }
pub proof fn lemma_tup_log(v: Vec<LogArgument>, n: nat, i: int) requires tup_log(v, n), 0 <= i < n ensures match v@[i] { LogArgument::LogExp(e) => tup_top(e), _ => true }, n <= v@.len() decreases n { if i < n - 1 { lemma_tup_log(v, (n - 1) as nat, i); } }
pub proof fn lemma_tup_ss(v: Vec<Statement>, n: nat, i: int) requires tup_ss(v, n), 0 <= i < n ensures tup_s(v@[i]), n <= v@.len() decreases n { if i < n - 1 { lemma_tup_ss(v, (n - 1) as nat, i); } }
// what is delivered to the tuple expansion: no assignment to "_" yet, no anonymous component left
pub open spec fn no_under() -> spec_fn(Statement) -> bool { |s: Statement| !(s is UnderscoreSubstitution) }
pub open spec fn plain(s: Statement) -> bool { all_s(s, no_under(), no_anon()) }
// the elements of e, nested tuples opened
pub open spec fn elems(e: Expression) -> Seq<Expression> decreases e { match e { Expression::Tuple { values, .. } => elems_n(values, values@.len()), _ => seq![e] } }
pub open spec fn elems_n(v: Vec<Expression>, n: nat) -> Seq<Expression> decreases v, n { if n == 0 { seq![] } else if n > v@.len() { seq![] } else { elems_n(v, (n - 1) as nat) + elems(v@[n - 1]) } }
pub open spec fn log_e(e: Expression) -> Seq<LogItem> decreases e { match e { Expression::Tuple { values, .. } => chars("("@) + log_n(values, values@.len()) + chars(")"@), _ => seq![LogItem::Ex(e)] } }
pub open spec fn log_n(v: Vec<Expression>, n: nat) -> Seq<LogItem> decreases v, n { if n == 0 { seq![] } else if n > v@.len() { seq![] } else { log_n(v, (n - 1) as nat) + log_e(v@[n - 1]) } }
pub open spec fn log_arg(a: LogArgument) -> Seq<LogItem> { match a { LogArgument::LogStr(s) => chars(s@), LogArgument::LogExp(e) => log_e(e) } }
pub open spec fn log_args(a: Seq<LogArgument>) -> Seq<LogItem> decreases a.len() { if a.len() == 0 { seq![] } else { log_args(a.drop_last()) + log_arg(a.last()) } }
// one element of a tuple assignment
pub open spec fn assigns(s: Statement, target: Expression, op: AssignOp, rhe: Expression) -> bool {
    target matches Expression::Variable { meta, name, access } && s == (if name@ != "_"@ { Statement::Substitution { meta, var: name, access, op, rhe } } else { Statement::UnderscoreSubstitution { meta, op, rhe } })
}
pub open spec fn pairs(l: Expression, r: Expression) -> bool { l is Tuple && r is Tuple && elems(l).len() == elems(r).len() && forall|i: int| 0 <= i < elems(l).len() ==> (#[trigger] elems(l)[i]) is Variable }
pub open spec fn can_untup(s: Statement) -> bool decreases s {
    match s {
        Statement::MultSubstitution { lhe, rhe, .. } => pairs(lhe, rhe),
        Statement::IfThenElse { if_case, else_case, .. } => can_untup(*if_case) && match else_case { Some(e) => can_untup(*e), None => true },
        Statement::While { stmt, .. } => can_untup(*stmt),
        Statement::InitializationBlock { initializations, .. } => can_untups(initializations, initializations@.len()),
        Statement::Block { stmts, .. } => can_untups(stmts, stmts@.len()),
        Statement::Substitution { rhe, .. } => !(rhe is Tuple),
        _ => true,
    }
}
pub open spec fn can_untups(v: Vec<Statement>, n: nat) -> bool decreases v, n { if n == 0 { true } else { n <= v@.len() && can_untups(v, (n - 1) as nat) && can_untup(v@[n - 1]) } }
pub proof fn lemma_can(v: Vec<Statement>, n: nat, i: int) requires can_untups(v, n), 0 <= i < n ensures can_untup(v@[i]) decreases n { if i < n - 1 { lemma_can(v, (n - 1) as nat, i); } }
// r is s with its tuples expanded
pub open spec fn untup(s: Statement, r: Statement) -> bool decreases s {
    match s {
        Statement::MultSubstitution { meta, lhe, op, rhe } => r matches Statement::Block { meta: m, stmts } && m == meta && stmts@.len() == elems(lhe).len()
            && forall|i: int| 0 <= i < stmts@.len() ==> assigns(#[trigger] stmts@[i], elems(lhe)[i], op, elems(rhe)[i]),
        Statement::IfThenElse { meta, cond, if_case, else_case } => r matches Statement::IfThenElse { meta: m, cond: c, if_case: i, else_case: e } && m == meta && c == cond && untup(*if_case, *i)
            && match (else_case, e) { (Some(x), Some(y)) => untup(*x, *y), (None, None) => true, _ => false },
        Statement::While { meta, cond, stmt } => r matches Statement::While { meta: m, cond: c, stmt: b } && m == meta && c == cond && untup(*stmt, *b),
        Statement::LogCall { meta, args } => r matches Statement::LogCall { meta: m, args: a } && m == meta && log_view(a@) == log_args(args@) && short(a@),
        Statement::InitializationBlock { meta, xtype, initializations } => r matches Statement::InitializationBlock { meta: m, xtype: x, initializations: v } && m == meta && x == xtype
            && v@.len() == initializations@.len() && untups(initializations, v, v@.len()),
        Statement::Block { meta, stmts } => r matches Statement::Block { meta: m, stmts: v } && m == meta && v@.len() == stmts@.len() && untups(stmts, v, v@.len()),
        Statement::Substitution { meta, var, access, op, rhe } => r == (if var@ != "_"@ { s } else { Statement::UnderscoreSubstitution { meta, op, rhe } }),
        _ => r == s,
    }
}
pub open spec fn untups(v: Vec<Statement>, w: Vec<Statement>, n: nat) -> bool decreases v, n { if n == 0 { true } else { n <= v@.len() && n <= w@.len() && untups(v, w, (n - 1) as nat) && untup(v@[n - 1], w@[n - 1]) } }
pub proof fn lemma_untups_push(v: Vec<Statement>, w: Vec<Statement>, w2: Vec<Statement>, n: nat) requires untups(v, w, n), forall|i: int| 0 <= i < n ==> w@[i] == #[trigger] w2@[i], n <= w2@.len() ensures untups(v, w2, n) decreases n { if n > 0 { lemma_untups_push(v, w, w2, (n - 1) as nat); } }
%end

%verbatim
impl VEq<AssignOp> for AssignOp { open spec fn veq_spec(&self, o: &AssignOp) -> bool { *self == *o }
    #[verifier::external_body] fn veq(&self, o: &AssignOp) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vne(&self, o: &AssignOp) -> (b: bool) { unimplemented!() } }
impl<'a> VEq<&'a str> for VString { open spec fn veq_spec(&self, o: &&'a str) -> bool { self@ == o@ }
    #[verifier::external_body] fn veq(&self, o: &&'a str) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vne(&self, o: &&'a str) -> (b: bool) { unimplemented!() } }
impl TemplateData { #[verifier::external_body] pub fn get_name(&self) -> (r: &str) { unimplemented!() } }
#[verifier::external_body]
pub fn anonymous_inside_condition_error(meta: Meta) -> (r: Report) { unimplemented!() }
impl VToString for usize { #[verifier::external_body] fn vto_string(&self) -> (r: VString) ensures r == key(dec(*self as int)) { unimplemented!() } }
impl VAdd<&VString> for VString { type Out = VString; open spec fn vadd_req(self, r: &VString) -> bool { true } open spec fn vadd_ens(self, r: &VString, o: VString) -> bool { o == key(self@ + r@) }
    #[verifier::external_body] fn vadd(self, r: &VString) -> (o: VString) { unimplemented!() } }
impl VAdd<&str> for VString { type Out = VString; open spec fn vadd_req(self, r: &str) -> bool { true } open spec fn vadd_ens(self, r: &str, o: VString) -> bool { o == key(self@ + r@) }
    #[verifier::external_body] fn vadd(self, r: &str) -> (o: VString) { unimplemented!() } }
// anonymous components only stand at the top of e, in tuples and arrays there, or as inputs of such components
pub open spec fn anon_top(e: Expression) -> bool decreases e {
    match e {
        Expression::AnonymousComp { params, signals, .. } => all_es(params, params@.len(), no_anon()) && anon_tops(signals, signals@.len()),
        Expression::Tuple { values, .. } => anon_tops(values, values@.len()),
        Expression::ArrayInLine { values, .. } => anon_tops(values, values@.len()),
        Expression::ParallelOp { rhe, .. } => if *rhe is AnonymousComp { anon_top(*rhe) } else { all_e(*rhe, no_anon()) },
        _ => all_e(e, no_anon()),
    }
}
pub open spec fn anon_tops(v: Vec<Expression>, n: nat) -> bool decreases v, n { if n == 0 { true } else { n <= v@.len() && anon_tops(v, (n - 1) as nat) && anon_top(v@[n - 1]) } }
pub proof fn lemma_anon_tops(v: Vec<Expression>, n: nat, i: int) requires anon_tops(v, n), 0 <= i < n ensures anon_top(v@[i]), n <= v@.len() decreases n { if i < n - 1 { lemma_anon_tops(v, (n - 1) as nat, i); } }
pub open spec fn anon_s(s: Statement) -> bool decreases s {
    match s {
        Statement::MultSubstitution { lhe, op, rhe, .. } => all_e(lhe, no_anon()) && anon_top(rhe) && (op is AssignSignal ==> all_e(rhe, no_anon())),
        Statement::Substitution { access, op, rhe, .. } => all_acc(access, access@.len(), no_anon()) && anon_top(rhe) && (op is AssignSignal ==> all_e(rhe, no_anon())),
        Statement::IfThenElse { cond, if_case, else_case, .. } => all_e(cond, no_anon()) && anon_s(*if_case) && match else_case { Some(e) => anon_s(*e), None => true },
        Statement::While { cond, stmt, .. } => all_e(cond, no_anon()) && anon_s(*stmt),
        Statement::InitializationBlock { initializations, .. } => anon_ss(initializations, initializations@.len()),
        Statement::Block { stmts, .. } => anon_ss(stmts, stmts@.len()),
        Statement::LogCall { args, .. } => all_log(args, args@.len(), no_anon()),
        Statement::Assert { arg, .. } => all_e(arg, no_anon()),
        Statement::Return { value, .. } => all_e(value, no_anon()),
        Statement::ConstraintEquality { lhe, rhe, .. } => all_e(lhe, no_anon()) && all_e(rhe, no_anon()),
        Statement::Declaration { dimensions, .. } => all_es(dimensions, dimensions@.len(), no_anon()),
        Statement::UnderscoreSubstitution { .. } => false,
    }
}
pub open spec fn anon_ss(v: Vec<Statement>, n: nat) -> bool decreases v, n { if n == 0 { true } else { n <= v@.len() && anon_ss(v, (n - 1) as nat) && anon_s(v@[n - 1]) } }
pub proof fn lemma_anon_ss(v: Vec<Statement>, n: nat, i: int) requires anon_ss(v, n), 0 <= i < n ensures anon_s(v@[i]), n <= v@.len() decreases n { if i < n - 1 { lemma_anon_ss(v, (n - 1) as nat, i); } }
pub open spec fn und(s: Statement) -> bool { all_s(s, no_under(), any_e()) }
%end
%fn check_anonymous_components_expression ret=r
    ensures r is Ok == anon_top(*exp)
    decreases exp
%at loop_start 0
proof { if all_acc(*access, access@.len(), no_anon()) { lemma_all_acc(*access, access@.len(), no_anon(), it_0.pos() - 1); } }
%loop 0
    all_acc(*access, it_0.pos() as nat, no_anon()),
%at loop_start 1
proof { if all_es(*args, args@.len(), no_anon()) { lemma_all_es(*args, args@.len(), no_anon(), it_1.pos() - 1); } }
%loop 1
    all_es(*args, it_1.pos() as nat, no_anon()),
%at loop_start 2
proof { if all_es(*args, args@.len(), no_anon()) { lemma_all_es(*args, args@.len(), no_anon(), it_2.pos() - 1); } }
%loop 2
    all_es(*args, it_2.pos() as nat, no_anon()),
%at loop_start 3
proof { if all_es(*params, params@.len(), no_anon()) { lemma_all_es(*params, params@.len(), no_anon(), it_3.pos() - 1); } }
%loop 3
    all_es(*params, it_3.pos() as nat, no_anon()),
%at loop_start 4
proof { if anon_tops(*signals, signals@.len()) { lemma_anon_tops(*signals, signals@.len(), it_4.pos() - 1); } }
%loop 4
    anon_tops(*signals, it_4.pos() as nat),
%at loop_start 5
proof { if anon_tops(*values, values@.len()) { lemma_anon_tops(*values, values@.len(), it_5.pos() - 1); } }
%loop 5
    anon_tops(*values, it_5.pos() as nat),
%at loop_start 6
proof { if anon_tops(*values, values@.len()) { lemma_anon_tops(*values, values@.len(), it_6.pos() - 1); } }
%loop 6
    anon_tops(*values, it_6.pos() as nat),
%fn check_anonymous_components_statement ret=r
    requires und(*stm)
    ensures r is Ok == anon_s(*stm)
    decreases stm
%at loop_start 0
proof { if all_log(*args, args@.len(), no_anon()) { lemma_all_log(*args, args@.len(), no_anon(), it_0.pos() - 1); } }
%loop 0
    all_log(*args, it_0.pos() as nat, no_anon()),
%at loop_start 1
proof { if all_es(*dimensions, dimensions@.len(), no_anon()) { lemma_all_es(*dimensions, dimensions@.len(), no_anon(), it_1.pos() - 1); } }
%loop 1
    all_es(*dimensions, it_1.pos() as nat, no_anon()),
%at loop_start 2
proof { if anon_ss(*initializations, initializations@.len()) { lemma_anon_ss(*initializations, initializations@.len(), it_2.pos() - 1); } lemma_all_ss(*initializations, initializations@.len(), no_under(), any_e(), it_2.pos() - 1); }
%loop 2
    anon_ss(*initializations, it_2.pos() as nat), all_ss(*initializations, initializations@.len(), no_under(), any_e()),
%at loop_start 3
proof { if anon_ss(*stmts, stmts@.len()) { lemma_anon_ss(*stmts, stmts@.len(), it_3.pos() - 1); } lemma_all_ss(*stmts, stmts@.len(), no_under(), any_e(), it_3.pos() - 1); }
%loop 3
    anon_ss(*stmts, it_3.pos() as nat), all_ss(*stmts, stmts@.len(), no_under(), any_e()),
%at loop_start 4
proof { if all_acc(*access, access@.len(), no_anon()) { lemma_all_acc(*access, access@.len(), no_anon(), it_4.pos() - 1); } }
%loop 4
    all_acc(*access, it_4.pos() as nat, no_anon()),
%fn check_tuples_expression ret=r
    requires all_e(*exp, no_anon())
    ensures r is Ok == tup_top(*exp)
    decreases exp
%at loop_start 0
proof { if all_es(*values, values@.len(), no_tuple()) { lemma_all_es(*values, values@.len(), no_tuple(), it_0.pos() - 1); } }
%loop 0
    all_es(*values, it_0.pos() as nat, no_tuple()),
%at loop_start 1
proof { if all_acc(*access, access@.len(), no_tuple()) { lemma_all_acc(*access, access@.len(), no_tuple(), it_1.pos() - 1); } }
%loop 1
    all_acc(*access, it_1.pos() as nat, no_tuple()),
%at loop_start 2
proof { if all_es(*args, args@.len(), no_tuple()) { lemma_all_es(*args, args@.len(), no_tuple(), it_2.pos() - 1); } }
%loop 2
    all_es(*args, it_2.pos() as nat, no_tuple()),
%at loop_start 3
proof { if all_es(*args, args@.len(), no_tuple()) { lemma_all_es(*args, args@.len(), no_tuple(), it_3.pos() - 1); } }
%loop 3
    all_es(*args, it_3.pos() as nat, no_tuple()),
%at loop_start 4
proof { if tup_tops(*values, values@.len()) { lemma_tup_tops(*values, values@.len(), it_4.pos() - 1); } lemma_all_es(*values, values@.len(), no_anon(), it_4.pos() - 1); }
%loop 4
    tup_tops(*values, it_4.pos() as nat), all_es(*values, values@.len(), no_anon()),
%fn check_tuples_statement ret=r
    requires plain(*stm)
    ensures r is Ok == tup_s(*stm)
    decreases stm
%at loop_start 0
proof { if tup_log(*args, args@.len()) { lemma_tup_log(*args, args@.len(), it_0.pos() - 1); } lemma_all_log(*args, args@.len(), no_anon(), it_0.pos() - 1); }
%loop 0
    tup_log(*args, it_0.pos() as nat), all_log(*args, args@.len(), no_anon()),
%at loop_start 1
proof { if all_es(*dimensions, dimensions@.len(), no_tuple()) { lemma_all_es(*dimensions, dimensions@.len(), no_tuple(), it_1.pos() - 1); } }
%loop 1
    all_es(*dimensions, it_1.pos() as nat, no_tuple()),
%at loop_start 2
proof { if tup_ss(*initializations, initializations@.len()) { lemma_tup_ss(*initializations, initializations@.len(), it_2.pos() - 1); } lemma_all_ss(*initializations, initializations@.len(), no_under(), no_anon(), it_2.pos() - 1); }
%loop 2
    tup_ss(*initializations, it_2.pos() as nat), all_ss(*initializations, initializations@.len(), no_under(), no_anon()),
%at loop_start 3
proof { if tup_ss(*stmts, stmts@.len()) { lemma_tup_ss(*stmts, stmts@.len(), it_3.pos() - 1); } lemma_all_ss(*stmts, stmts@.len(), no_under(), no_anon(), it_3.pos() - 1); }
%loop 3
    tup_ss(*stmts, it_3.pos() as nat), all_ss(*stmts, stmts@.len(), no_under(), no_anon()),
%at loop_start 4
proof { if all_acc(*access, access@.len(), no_tuple()) { lemma_all_acc(*access, access@.len(), no_tuple(), it_4.pos() - 1); } }
%loop 4
    all_acc(*access, it_4.pos() as nat, no_tuple()),
%fn remove_tuple_from_expression ret=r
    requires all_e(exp, no_anon())
    ensures match exp { Expression::Tuple { meta, .. } => r matches Expression::Tuple { meta: m, values } && m == meta && values@ == elems(exp), _ => r == exp }
    decreases exp
%at start
let ghost e0 = exp;
%at loop_start 0
let ghost uv = unfolded_values@;
proof { if let Expression::Tuple { values: v0, .. } = e0 { lemma_all_es(v0, v0@.len(), no_anon(), it_0.pos() - 1); assert(decreases_to!(e0 => v0)); } }
%at loop_end 0
proof { if let Expression::Tuple { values: v0, .. } = e0 { assert(unfolded_values@ =~= uv + elems(v0@[it_0.pos() - 1])); } }
%loop 0
    e0 matches Expression::Tuple { values: v0, .. } && it_0.items() == v0@ && unfolded_values@ == elems_n(v0, it_0.pos() as nat) && all_es(v0, v0@.len(), no_anon()),
%fn separate_tuple_for_logcall ret=r
    ensures log_view(r@) == log_n(values, values@.len()), values@.len() == 1 ==> log_view(r@) == log_e(values@[0])
    decreases values
%at start
let ghost v0 = values;
%at loop_start 0
let ghost nv = new_values@;
%loop 0
    it_0.items() == v0@, log_view(new_values@) == log_n(v0, it_0.pos() as nat),
%at loop_end 0
broadcast use axiom_key_view;
proof {
    let e = v0@[it_0.pos() - 1];
    if e is Tuple {
        let lp = LogArgument::LogStr(key("("@)); let rp = LogArgument::LogStr(key(")"@));
        assert forall|t: Seq<LogArgument>| new_values@ == (#[trigger] (nv.push(lp) + t)).push(rp) implies log_view(new_values@) == log_view(nv) + chars("("@) + log_view(t) + chars(")"@) by {
            lemma_log_push(nv.push(lp) + t, rp); lemma_log_cat(nv.push(lp), t); lemma_log_push(nv, lp);
        }
        let t = new_values@.subrange(nv.len() as int + 1, new_values@.len() - 1);
        assert(new_values@ =~= (nv.push(lp) + t).push(rp));
        assert(log_view(new_values@) =~= log_view(nv) + log_e(e));
    } else { assert(new_values@ == nv.push(LogArgument::LogExp(e))); lemma_log_push(nv, LogArgument::LogExp(e)); }
}
%at tail
proof { if v0@.len() == 1 { assert(log_n(v0, 0) =~= seq![]); assert(log_n(v0, 1) =~= log_e(v0@[0])); } }
%fn remove_tuples_from_statement ret=r
    requires plain(stm), tup_s(stm)
    ensures r is Ok == can_untup(stm), r matches Ok(s) ==> untup(stm, s)
    decreases stm
%at start
let ghost s0 = stm;
%at pre_loop 0
let ghost l0 = values1@; let ghost r0 = values2@;
%loop 0
    substs@.len() <= l0.len(), l0.len() == r0.len(), values1@ == l0.skip(substs@.len() as int), values2@ == r0.skip(substs@.len() as int),
    forall|i: int| 0 <= i < substs@.len() ==> assigns(#[trigger] substs@[i], l0[i], op, r0[i]),
    forall|i: int| 0 <= i < substs@.len() ==> (#[trigger] l0[i]) is Variable,
    decreases values1@.len()
%at loop_start 0
proof { assert(l0.skip(substs@.len() as int)[0] == l0[substs@.len() as int]); }
%at loop_end 0
proof { assert(values1@ =~= l0.skip(substs@.len() as int)); assert(values2@ =~= r0.skip(substs@.len() as int)); }
%at loop_start 1
let ghost na = newargs@;
broadcast use axiom_key_view;
%loop 1
    s0 matches Statement::LogCall { args: a0, .. } && it_1.items() == a0@ && log_view(newargs@) == log_args(a0@.take(it_1.pos() as int)),
%at loop_end 1
proof { if let Statement::LogCall { args: a0, .. } = s0 {
    let k = it_1.pos() - 1; assert(a0@.take(k + 1).drop_last() =~= a0@.take(k));
    assert forall|x: LogArgument| newargs@ == #[trigger] na.push(x) implies log_view(newargs@) == log_view(na) + arg_view(x) by { lemma_log_push(na, x); }
    assert forall|t: Seq<LogArgument>| newargs@ == #[trigger] (na + t) implies log_view(newargs@) == log_view(na) + log_view(t) by { lemma_log_cat(na, t); }
    assert(newargs@ == na.push(a0@[k]) || a0@[k] is LogExp);
} }
%at post_loop 1
proof { if let Statement::LogCall { args: a0, .. } = s0 { assert(a0@.take(a0@.len() as int) =~= a0@); } }
%at loop_start 2
let ghost ni = new_inits;
proof { if let Statement::InitializationBlock { initializations: v0, .. } = s0 {
    lemma_tup_ss(v0, v0@.len(), it_2.pos() - 1); lemma_all_ss(v0, v0@.len(), no_under(), no_anon(), it_2.pos() - 1);
    if can_untups(v0, v0@.len()) { lemma_can(v0, v0@.len(), it_2.pos() - 1); } } }
%loop 2
    s0 matches Statement::InitializationBlock { initializations: v0, .. } && it_2.items() == v0@ && new_inits@.len() == it_2.pos() && untups(v0, new_inits, it_2.pos() as nat) && can_untups(v0, it_2.pos() as nat)
        && tup_ss(v0, v0@.len()) && all_ss(v0, v0@.len(), no_under(), no_anon()),
%at loop_end 2
proof { if let Statement::InitializationBlock { initializations: v0, .. } = s0 { lemma_untups_push(v0, ni, new_inits, (it_2.pos() - 1) as nat); } }
%at loop_start 3
let ghost ns = new_stmts;
proof { if let Statement::Block { stmts: v0, .. } = s0 {
    lemma_tup_ss(v0, v0@.len(), it_3.pos() - 1); lemma_all_ss(v0, v0@.len(), no_under(), no_anon(), it_3.pos() - 1);
    if can_untups(v0, v0@.len()) { lemma_can(v0, v0@.len(), it_3.pos() - 1); } } }
%loop 3
    s0 matches Statement::Block { stmts: v0, .. } && it_3.items() == v0@ && new_stmts@.len() == it_3.pos() && untups(v0, new_stmts, it_3.pos() as nat) && can_untups(v0, it_3.pos() as nat)
        && tup_ss(v0, v0@.len()) && all_ss(v0, v0@.len(), no_under(), no_anon()),
%at loop_end 3
proof { if let Statement::Block { stmts: v0, .. } = s0 { lemma_untups_push(v0, ns, new_stmts, (it_3.pos() - 1) as nat); } }

%verbatim
// ---- anonymous components ----
pub type Tmpl = Map<VString, TemplateData>;
pub open spec fn named_at(fl: FileLibrary, m: Meta) -> Seq<char> { dec(line_of(fl, m.start, m.file_id->0) as int) + "_"@ + dec(m.start as int) }
// the name of the component standing for the anonymous one at m
pub open spec fn aname(fl: FileLibrary, id: VString, m: Meta) -> VString { key(id@ + "_"@ + dec(line_of(fl, m.start, m.file_id->0) as int) + "_"@ + dec(m.start as int)) }
pub open spec fn vacc(va: Option<Expression>) -> Seq<Access> { match va { None => seq![], Some(e) => seq![Access::ArrayAccess(e)] } }
// reads signal c of the component
pub open spec fn reads(x: Expression, m: Meta, name: VString, va: Option<Expression>, c: VString) -> bool {
    x matches Expression::Variable { meta, name: n, access } && meta == m && n == name && access@ == vacc(va).push(Access::ComponentAccess(c))
}
pub open spec fn declares(s: Statement, m: Meta, name: VString, va: Option<Expression>) -> bool {
    s matches Statement::Declaration { meta, xtype, name: n, dimensions, is_constant, is_anonymous } && meta == m && n == name && is_constant && is_anonymous && match va {
        None => xtype is Component && dimensions@ == Seq::<Expression>::empty(),
        Some(e) => xtype is AnonymousComponent && dimensions@ == seq![e],
    }
}
pub open spec fn calls(c: Expression, m: Meta, id: VString, params: Seq<Expression>) -> bool { c matches Expression::Call { meta, id: i, args } && meta == m && i == id && args@ == params }
// creates the component
pub open spec fn creates(s: Statement, m: Meta, name: VString, va: Option<Expression>, id: VString, params: Seq<Expression>, par: bool) -> bool {
    s matches Statement::Substitution { meta, var, access, op, rhe } && meta == m && var == name && access@ == vacc(va) && op is AssignVar
        && if par { rhe matches Expression::ParallelOp { meta: pm, rhe: c } && pm == m && calls(*c, m, id, params) } else { calls(rhe, m, id, params) }
}
// assigns and constrains input c of the component
pub open spec fn feeds(s: Statement, m: Meta, name: VString, va: Option<Expression>, c: VString) -> bool {
    s matches Statement::Substitution { meta, var, access, op, rhe } && meta == m && var == name && access@ == vacc(va).push(Access::ComponentAccess(c)) && op is AssignConstraintSignal
}
pub open spec fn outs_are(x: Expression, m: Meta, name: VString, va: Option<Expression>, outs: Seq<(VString, usize)>) -> bool {
    if outs.len() == 1 { reads(x, m, name, va, outs[0].0) }
    else { x matches Expression::Tuple { meta, values } && meta == m && values@.len() == outs.len() && forall|i: int| 0 <= i < outs.len() ==> reads(#[trigger] values@[i], m, name, va, outs[i].0) }
}
// which input each argument is for
pub open spec fn arg_names(td: TemplateData, names: Option<Vec<(AssignOp, VString)>>) -> Seq<VString> {
    match names { Some(m) => m@.map_values(|x: (AssignOp, VString)| x.1), None => td.input_declarations@.map_values(|x: (VString, usize)| x.0) }
}
pub open spec fn distinct(s: Seq<VString>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
pub open spec fn args_ok(td: TemplateData, names: Option<Vec<(AssignOp, VString)>>, n: nat) -> bool {
    match names {
        Some(m) => td.input_wires@.dom().len() == m@.len() && (forall|i: int| 0 <= i < m@.len() ==> (#[trigger] m@[i]).0 is AssignConstraintSignal && td.input_wires@.contains_key(m@[i].1)) && distinct(arg_names(td, names)),
        None => td.input_declarations@.len() == n,
    }
}
pub open spec fn given(p: Seq<int>, names: Seq<VString>, c: VString) -> bool { exists|k: int| 0 <= k < p.len() && names[#[trigger] p[k]] == c }
// p lists, for every name, one argument given for it
pub open spec fn order_of(p: Seq<int>, names: Seq<VString>) -> bool {
    &&& forall|k: int| 0 <= k < p.len() ==> 0 <= #[trigger] p[k] < names.len()
    &&& forall|j: int, k: int| 0 <= j < k < p.len() ==> names[#[trigger] p[j]] != names[#[trigger] p[k]]
    &&& forall|i: int| 0 <= i < names.len() ==> given(p, names, #[trigger] names[i])
}
pub open spec fn cut(i: int, j: int) -> bool { true }
pub open spec fn ordered(p: Seq<int>) -> bool { true }
// e is replaced by v, after declaring d and executing s; par: under the parallel operator
pub open spec fn unan_e(t: Tmpl, fl: FileLibrary, e: Expression, par: bool, va: Option<Expression>, d: Seq<Statement>, s: Seq<Statement>, v: Expression) -> bool decreases e {
    match e {
        Expression::ArrayInLine { meta, values } => v matches Expression::ArrayInLine { meta: m, values: w } && m == meta && w@.len() == values@.len() && unan_es(t, fl, values, values@.len(), va, d, s, w@),
        Expression::Tuple { meta, values } => v matches Expression::Tuple { meta: m, values: w } && m == meta && w@.len() == values@.len() && unan_es(t, fl, values, values@.len(), va, d, s, w@),
        Expression::AnonymousComp { meta, id, params, signals, names, is_parallel } => {
            let name = aname(fl, id, meta);
            &&& t.contains_key(id) && args_ok(t[id], names, signals@.len())
            &&& d.len() >= 1 && declares(d[0], meta, name, va)
            &&& s.len() == 1
            &&& s[0] matches Statement::Block { meta: m, stmts } && m == meta && stmts@.len() >= 1 && creates(stmts@[0], meta, name, va, id, params@, is_parallel || par)
                && exists|p: Seq<int>| #[trigger] ordered(p) && order_of(p, arg_names(t[id], names)) && unan_in(t, fl, meta, name, arg_names(t[id], names), signals, p, p.len(), va, d.skip(1), stmts@.skip(1))
            &&& outs_are(v, meta, name, va, t[id].output_declarations@)
        }
        Expression::ParallelOp { rhe, .. } => if *rhe is AnonymousComp { unan_e(t, fl, *rhe, true, va, d, s, v) } else { d.len() == 0 && s.len() == 0 && v == e },
        _ => d.len() == 0 && s.len() == 0 && v == e,
    }
}
pub open spec fn unan_es(t: Tmpl, fl: FileLibrary, e: Vec<Expression>, n: nat, va: Option<Expression>, d: Seq<Statement>, s: Seq<Statement>, w: Seq<Expression>) -> bool decreases e, n {
    if n == 0 { d.len() == 0 && s.len() == 0 } else { n <= e@.len() && n <= w.len() && exists|i: int, j: int| #[trigger] cut(i, j) && 0 <= i <= d.len() && 0 <= j <= s.len()
        && unan_es(t, fl, e, (n - 1) as nat, va, d.take(i), s.take(j), w) && unan_e(t, fl, e@[n - 1], false, va, d.skip(i), s.skip(j), w[n - 1]) }
}
// the first n inputs in the order p are computed and assigned
pub open spec fn unan_in(t: Tmpl, fl: FileLibrary, m: Meta, name: VString, names: Seq<VString>, e: Vec<Expression>, p: Seq<int>, n: nat, va: Option<Expression>, d: Seq<Statement>, s: Seq<Statement>) -> bool decreases e, n {
    if n == 0 { d.len() == 0 && s.len() == 0 } else { n <= p.len() && 0 <= p[n - 1] < e@.len() && s.len() > 0 && feeds(s.last(), m, name, va, names[p[n - 1]])
        && exists|i: int, j: int| #[trigger] cut(i, j) && 0 <= i <= d.len() && 0 <= j < s.len()
        && unan_in(t, fl, m, name, names, e, p, (n - 1) as nat, va, d.take(i), s.take(j)) && unan_e(t, fl, e@[p[n - 1]], false, va, d.skip(i), s.subrange(j, s.len() - 1), s.last()->Substitution_rhe) }
}
pub open spec fn can_e(t: Tmpl, e: Expression) -> bool decreases e {
    match e {
        Expression::ArrayInLine { values, .. } => can_es(t, values, values@.len()),
        Expression::Tuple { values, .. } => can_es(t, values, values@.len()),
        Expression::AnonymousComp { id, signals, names, .. } => t.contains_key(id) && args_ok(t[id], names, signals@.len()) && can_es(t, signals, signals@.len()),
        Expression::ParallelOp { rhe, .. } => *rhe is AnonymousComp ==> can_e(t, *rhe),
        _ => true,
    }
}
pub open spec fn can_es(t: Tmpl, v: Vec<Expression>, n: nat) -> bool decreases v, n { if n == 0 { true } else { n <= v@.len() && can_es(t, v, (n - 1) as nat) && can_e(t, v@[n - 1]) } }
pub proof fn lemma_can_es(t: Tmpl, v: Vec<Expression>, n: nat, i: int) requires can_es(t, v, n), 0 <= i < n ensures can_e(t, v@[i]), n <= v@.len() decreases n { if i < n - 1 { lemma_can_es(t, v, (n - 1) as nat, i); } }
// what the parser delivers: file numbers are set; a named argument list has a name per argument
pub open spec fn filed() -> spec_fn(Expression) -> bool { |e: Expression| e_meta(e).file_id is Some && match e { Expression::AnonymousComp { signals, names: Some(m), .. } => m@.len() == signals@.len(), _ => true } }
pub open spec fn esz(e: Expression) -> nat decreases e {
    match e {
        Expression::ArrayInLine { values, .. } => 1 + esz_n(values, values@.len()),
        Expression::Tuple { values, .. } => 1 + esz_n(values, values@.len()),
        Expression::AnonymousComp { signals, .. } => 1 + esz_n(signals, signals@.len()),
        Expression::ParallelOp { rhe, .. } => 1 + esz(*rhe),
        _ => 1,
    }
}
pub open spec fn esz_n(v: Vec<Expression>, n: nat) -> nat decreases v, n { if n == 0 { 0 } else if n > v@.len() { 0 } else { esz_n(v, (n - 1) as nat) + esz(v@[n - 1]) } }
pub proof fn lemma_esz(v: Vec<Expression>, n: nat, i: int) requires 0 <= i < n <= v@.len() ensures esz(v@[i]) <= esz_n(v, n) decreases n { if i < n - 1 { lemma_esz(v, (n - 1) as nat, i); } }
pub proof fn lemma_es_step(t: Tmpl, fl: FileLibrary, e: Vec<Expression>, n: nat, va: Option<Expression>, d0: Seq<Statement>, s0: Seq<Statement>, d: Seq<Statement>, s: Seq<Statement>, w0: Seq<Expression>, w: Seq<Expression>)
    requires unan_es(t, fl, e, n, va, d0, s0, w0), n < e@.len(), w0.len() == n, w.len() == n + 1, w.take(n as int) == w0, d.len() >= d0.len(), s.len() >= s0.len(), d.take(d0.len() as int) == d0, s.take(s0.len() as int) == s0,
        unan_e(t, fl, e@[n as int], false, va, d.skip(d0.len() as int), s.skip(s0.len() as int), w[n as int])
    ensures unan_es(t, fl, e, n + 1, va, d, s, w)
{ lemma_es_pre(t, fl, e, n, va, d0, s0, w0, w); assert(cut(d0.len() as int, s0.len() as int)); }
pub proof fn lemma_es_pre(t: Tmpl, fl: FileLibrary, e: Vec<Expression>, n: nat, va: Option<Expression>, d: Seq<Statement>, s: Seq<Statement>, w0: Seq<Expression>, w: Seq<Expression>)
    requires unan_es(t, fl, e, n, va, d, s, w0), n <= w.len(), n <= w0.len(), forall|i: int| 0 <= i < n ==> w0[i] == #[trigger] w[i]
    ensures unan_es(t, fl, e, n, va, d, s, w) decreases n
{
    if n > 0 {
        let (i, j) = choose|i: int, j: int| #[trigger] cut(i, j) && 0 <= i <= d.len() && 0 <= j <= s.len()
            && unan_es(t, fl, e, (n - 1) as nat, va, d.take(i), s.take(j), w0) && unan_e(t, fl, e@[n - 1], false, va, d.skip(i), s.skip(j), w0[n - 1]);
        lemma_es_pre(t, fl, e, (n - 1) as nat, va, d.take(i), s.take(j), w0, w); assert(cut(i, j)); assert(w0[n - 1] == w[n - 1]);
    }
}
%end
%item UpdatedExpression
%verbatim
// the map m holds, for the first n names, one of the arguments given for each; ix remembers which
pub open spec fn mapped(m: Map<VString, (AssignOp, Expression)>, ix: Map<VString, int>, nm: Seq<VString>, sig: Seq<Expression>, n: int) -> bool {
    &&& ix.dom() == m.dom() && n <= nm.len() && n <= sig.len()
    &&& forall|k: VString| #[trigger] m.contains_key(k) ==> 0 <= ix[k] < n && nm[ix[k]] == k && m[k].0 is AssignConstraintSignal && m[k].1 == sig[ix[k]]
    &&& forall|i: int| 0 <= i < n ==> m.contains_key(#[trigger] nm[i])
    &&& m.dom().len() <= n && (m.dom().len() == n <==> distinct(nm.take(n)))
}
pub proof fn lemma_mapped(m: Map<VString, (AssignOp, Expression)>, ix: Map<VString, int>, nm: Seq<VString>, sig: Seq<Expression>, n: int, op: AssignOp)
    requires mapped(m, ix, nm, sig, n), 0 <= n < nm.len(), n < sig.len(), op is AssignConstraintSignal ensures mapped(m.insert(nm[n], (op, sig[n])), ix.insert(nm[n], n), nm, sig, n + 1)
{
    let k = nm[n]; let m2 = m.insert(k, (op, sig[n]));
    if m.contains_key(k) {
        assert(m2.dom() =~= m.dom()); assert(nm.take(n + 1)[ix[k]] == nm.take(n + 1)[n]); assert(!distinct(nm.take(n + 1)));
    } else {
        assert(m2.dom() =~= m.dom().insert(k));
        if distinct(nm.take(n)) { let q = nm.take(n + 1); assert forall|i: int, j: int| 0 <= i < j < n + 1 implies #[trigger] q[i] != #[trigger] q[j] by { if j < n { assert(nm.take(n)[i] != nm.take(n)[j]); } else { assert(m.contains_key(nm[i])); } } }
        if distinct(nm.take(n + 1)) { let q = nm.take(n); assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] q[i] != #[trigger] q[j] by { assert(nm.take(n + 1)[i] != nm.take(n + 1)[j]); } }
    }
}
pub proof fn lemma_in_step(t: Tmpl, fl: FileLibrary, m: Meta, name: VString, names: Seq<VString>, e: Vec<Expression>, p: Seq<int>, n: nat, va: Option<Expression>, d0: Seq<Statement>, s0: Seq<Statement>, d1: Seq<Statement>, s1: Seq<Statement>, f: Statement)
    requires unan_in(t, fl, m, name, names, e, p, n, va, d0, s0), n < p.len(), 0 <= p[n as int] < e@.len(), feeds(f, m, name, va, names[p[n as int]]), unan_e(t, fl, e@[p[n as int]], false, va, d1, s1, f->Substitution_rhe)
    ensures unan_in(t, fl, m, name, names, e, p, n + 1, va, d0 + d1, (s0 + s1).push(f))
{
    let d = d0 + d1; let s = (s0 + s1).push(f); let i = d0.len() as int; let j = s0.len() as int;
    assert(d.take(i) =~= d0 && d.skip(i) =~= d1 && s.take(j) =~= s0 && s.subrange(j, s.len() - 1) =~= s1); assert(cut(i, j));
}
pub proof fn lemma_order(kv: Seq<(VString, (AssignOp, Expression))>, m: Map<VString, (AssignOp, Expression)>, ix: Map<VString, int>, nm: Seq<VString>, sig: Seq<Expression>, p: Seq<int>)
    requires mapseq(kv, m), mapped(m, ix, nm, sig, nm.len() as int), p == Seq::new(kv.len(), |k: int| ix[kv[k].0]) ensures order_of(p, nm)
{
    assert forall|k: int| 0 <= k < p.len() implies 0 <= #[trigger] p[k] < nm.len() && nm[p[k]] == kv[k].0 by { assert(m.contains_key(kv[k].0)); }
    let ks = Seq::new(kv.len(), |i: int| kv[i].0);
    assert forall|j: int, k: int| 0 <= j < k < p.len() implies nm[#[trigger] p[j]] != nm[#[trigger] p[k]] by { assert(ks[j] != ks[k]); assert(nm[p[j]] == ks[j] && nm[p[k]] == ks[k]); }
    assert forall|i: int| 0 <= i < nm.len() implies given(p, nm, #[trigger] nm[i]) by { assert(m.contains_key(nm[i])); assert(ks.contains(nm[i])); let k = choose|k: int| 0 <= k < ks.len() && #[trigger] ks[k] == nm[i]; assert(nm[p[k]] == nm[i]); }
}
pub open spec fn parallel_of(a: Expression, b: Expression) -> bool {
    a matches Expression::AnonymousComp { meta, id, params, signals, names, .. } && b == (Expression::AnonymousComp { meta, id, params, signals, names, is_parallel: true })
}
pub proof fn lemma_par(t: Tmpl, fl: FileLibrary, a: Expression, b: Expression, va: Option<Expression>)
    requires parallel_of(a, b), all_e(a, filed())
    ensures all_e(b, filed()), esz(a) == esz(b), can_e(t, a) ==> can_e(t, b), forall|d: Seq<Statement>, s: Seq<Statement>, v: Expression| #[trigger] unan_e(t, fl, b, false, va, d, s, v) ==> unan_e(t, fl, a, true, va, d, s, v)
{
    assert(filed()(a)); assert(filed()(b));
    assert forall|d: Seq<Statement>, s: Seq<Statement>, v: Expression| #[trigger] unan_e(t, fl, b, false, va, d, s, v) implies unan_e(t, fl, a, true, va, d, s, v) by { }
}
%end
%fn remove_anonymous_from_expression ret=r
    requires all_e(exp, filed())
    ensures r matches Ok(u) ==> unan_e(templates@, *file_lib, exp, false, *var_access, u.0@, u.1@, u.2), can_e(templates@, exp) ==> r is Ok
    decreases esz(exp)
%attr verifier::rlimit(100)
%attr verifier::spinoff_prover
%at start
broadcast use axiom_key_view;
let ghost e0 = exp; let ghost t = templates@; let ghost fl = *file_lib; let ghost va = *var_access;
%at after_let rhe2 0
proof { if let Expression::ParallelOp { rhe: r0, .. } = e0 { lemma_par(t, fl, *r0, rhe2, va); assert(esz(e0) == 1 + esz(*r0)); } }
%at after_let call 0
proof { assert(call->Call_args@ =~= params@); assert(calls(call, meta, id, params@)); }
%at after_let sub 0
proof { assert(sub->Substitution_access@ =~= vacc(va)); assert(creates(sub, meta, nam, va, id, params@, is_parallel)); assert(declarations@[0]->Declaration_dimensions@ =~= match va { None => Seq::<Expression>::empty(), Some(e) => seq![e] }); assert(declares(declarations@[0], meta, nam, va)); }
%at loop_start 0
let ghost d0 = declarations@; let ghost s0 = new_stmts@; let ghost w0 = new_values@;
proof { if let Expression::ArrayInLine { values: v0, .. } = e0 { lemma_all_es(v0, v0@.len(), filed(), it_0.pos() - 1); lemma_esz(v0, v0@.len(), it_0.pos() - 1); if can_e(t, e0) { lemma_can_es(t, v0, v0@.len(), it_0.pos() - 1); } } }
%at after_let result 0
let ghost res = result->Ok_0;
%loop 0
    e0 matches Expression::ArrayInLine { values: v0, .. } && it_0.items() == v0@ && new_values@.len() == it_0.pos() && unan_es(t, fl, v0, it_0.pos() as nat, va, declarations@, new_stmts@, new_values@) && all_es(v0, v0@.len(), filed()),
%at loop_end 0
proof { if let Expression::ArrayInLine { values: v0, .. } = e0 {
    assert(declarations@ =~= d0 + res.0@); assert(new_stmts@ =~= s0 + res.1@); assert(declarations@.skip(d0.len() as int) =~= res.0@); assert(new_stmts@.skip(s0.len() as int) =~= res.1@);
    assert(declarations@.take(d0.len() as int) =~= d0); assert(new_stmts@.take(s0.len() as int) =~= s0); assert(new_values@.take(w0.len() as int) =~= w0);
    lemma_es_step(t, fl, v0, (it_0.pos() - 1) as nat, va, d0, s0, declarations@, new_stmts@, w0, new_values@);
} }
%at after_let id_anon_temp 0
let ghost sig0 = signals; let ghost nm = arg_names(t[id], names); let ghost td = t[id]; let ghost names0 = names; let ghost nam = id_anon_temp;
assert(nam == aname(fl, id, meta));
%at after_let inputs_to_assignments 0
let ghost mut ix: Map<VString, int> = Map::empty();
proof { assert(declares(declarations@[0], meta, nam, va)); assert(creates(seq_substs@[0], meta, nam, va, id, params@, is_parallel)); }
%loop 1
    names0 matches Some(m0) && it_1.items() == m0@ && m0@.len() == sig0@.len() && td.input_wires@.dom().len() == m0@.len()
        && forall|i: int| 0 <= i < it_1.pos() ==> (#[trigger] m0@[i]).0 is AssignConstraintSignal && td.input_wires@.contains_key(m0@[i].1),
    n_expr == it_1.pos(), *inputs == td.input_wires, signals == sig0, mapped(inputs_to_assignments@, ix, nm, sig0@, it_1.pos() as int), nm == arg_names(td, names0),
%at loop_end 1
proof { lemma_mapped(old_m, ix, nm, sig0@, n_expr - 1, AssignOp::AssignConstraintSignal); ix = ix.insert(nm[n_expr - 1], n_expr - 1); }
%at loop_start 1
let ghost old_m = inputs_to_assignments@;
assert(nm[n_expr as int] == name);
%at loop_start 2
let ghost old_m = inputs_to_assignments@;
%loop 2
    it_2.items() == sig0@, td.input_declarations@.len() == sig0@.len(), *inputs == td.input_declarations, n_expr == it_2.pos(), mapped(inputs_to_assignments@, ix, nm, sig0@, it_2.pos() as int), nm == td.input_declarations@.map_values(|x: (VString, usize)| x.0),
%at loop_end 2
proof { lemma_mapped(old_m, ix, nm, sig0@, n_expr - 1, AssignOp::AssignConstraintSignal); ix = ix.insert(nm[n_expr - 1], n_expr - 1); }
%at pre_loop 3
let ghost ma = inputs_to_assignments@;
let ghost dh = declarations@[0]; let ghost sh = seq_substs@[0];
assert(nm.take(nm.len() as int) =~= nm); assert(args_ok(td, names0, sig0@.len()));
%loop 3
    btseq(it_3.items(), ma), mapped(ma, ix, nm, sig0@, nm.len() as int), nm.len() == sig0@.len(), declarations@.len() >= 1, declarations@[0] == dh, seq_substs@.len() >= 1, seq_substs@[0] == sh,
    unan_in(t, fl, meta, nam, nm, sig0, Seq::new(it_3.items().len(), |k: int| ix[it_3.items()[k].0]), it_3.pos() as nat, va, declarations@.skip(1), seq_substs@.skip(1)),
%at loop_start 3
let ghost k = it_3.pos() - 1; let ghost p = Seq::new(it_3.items().len(), |k: int| ix[it_3.items()[k].0]);
let ghost d0 = declarations@; let ghost s0 = seq_substs@;
proof { assert(ma.contains_key(name_signal)); lemma_all_es(sig0, sig0@.len(), filed(), p[k]); lemma_esz(sig0, sig0@.len(), p[k]); if can_e(t, e0) { lemma_can_es(t, sig0, sig0@.len(), p[k]); } }
%at after_let declarations2 0
let ghost d2 = declarations2@; let ghost s2 = stmts@; let ghost v2 = new_exp;
%at loop_end 3
proof {
    let f = seq_substs@.last();
    assert(feeds(f, meta, nam, va, name_signal));
    lemma_in_step(t, fl, meta, nam, nm, sig0, p, k as nat, va, d0.skip(1), s0.skip(1), d2, s2, f);
    assert(declarations@.skip(1) =~= d0.skip(1) + d2); assert(seq_substs@.skip(1) =~= (s0.skip(1) + s2).push(f));
}
%at after_loop 3
proof { let p = Seq::new(it_3.items().len(), |k: int| ix[it_3.items()[k].0]); lemma_order(it_3.items(), ma, ix, nm, sig0@, p); assert(ordered(p)); assert(order_of(p, nm)); assert(unan_in(t, fl, meta, nam, nm, sig0, p, p.len(), va, declarations@.skip(1), seq_substs@.skip(1))); }
%loop 4
    new_values@.len() == it_4.pos(), forall|i: int| 0 <= i < new_values@.len() ==> reads(#[trigger] new_values@[i], meta, nam, va, td.output_declarations@[i].0), derefs(it_4.items()) == td.output_declarations@,
%at loop_start 5
let ghost d0 = declarations@; let ghost s0 = new_stmts@; let ghost w0 = new_values@;
proof { if let Expression::Tuple { values: v0, .. } = e0 { lemma_all_es(v0, v0@.len(), filed(), it_5.pos() - 1); lemma_esz(v0, v0@.len(), it_5.pos() - 1); if can_e(t, e0) { lemma_can_es(t, v0, v0@.len(), it_5.pos() - 1); } } }
%at after_let result 1
let ghost res = result->Ok_0;
%loop 5
    e0 matches Expression::Tuple { values: v0, .. } && it_5.items() == v0@ && new_values@.len() == it_5.pos() && unan_es(t, fl, v0, it_5.pos() as nat, va, declarations@, new_stmts@, new_values@) && all_es(v0, v0@.len(), filed()),
%at loop_end 5
proof { if let Expression::Tuple { values: v0, .. } = e0 {
    assert(declarations@ =~= d0 + res.0@); assert(new_stmts@ =~= s0 + res.1@); assert(declarations@.skip(d0.len() as int) =~= res.0@); assert(new_stmts@.skip(s0.len() as int) =~= res.1@);
    assert(declarations@.take(d0.len() as int) =~= d0); assert(new_stmts@.take(s0.len() as int) =~= s0); assert(new_values@.take(w0.len() as int) =~= w0);
    lemma_es_step(t, fl, v0, (it_5.pos() - 1) as nat, va, d0, s0, declarations@, new_stmts@, w0, new_values@);
} }
%verbatim
pub open spec fn looped(x: Expression, b: Statement, vs: Seq<Statement>, ss: Seq<Statement>) -> bool { true }
pub open spec fn cut3(i: int, j: int, k: int) -> bool { true }
pub open spec fn with_rhe(s: Statement, v: Expression) -> Statement {
    match s {
        Statement::MultSubstitution { meta, lhe, op, .. } => Statement::MultSubstitution { meta, lhe, op, rhe: v },
        Statement::Substitution { meta, var, access, op, .. } => Statement::Substitution { meta, var, access, op, rhe: v },
        _ => s,
    }
}
// an assignment of rhe: the components inside rhe come first
pub open spec fn unan_asn(t: Tmpl, fl: FileLibrary, s: Statement, rhe: Expression, va: Option<Expression>, r: Statement, c: Seq<Statement>) -> bool {
    exists|q: Seq<Statement>, v: Expression| #[trigger] unan_e(t, fl, rhe, false, va, c, q, v)
        && if q.len() == 0 { r == with_rhe(s, v) } else { r matches Statement::Block { meta, stmts } && meta == s_meta(s) && stmts@ == q.push(with_rhe(s, v)) }
}
// the variable counting the iterations of a loop
pub open spec fn counts(x: Expression, fl: FileLibrary, m: Meta) -> bool { x matches Expression::Variable { meta, name, access } && meta == m && name == wname(fl, m) && access@.len() == 0 }
pub open spec fn wname(fl: FileLibrary, m: Meta) -> VString { key("anon_var_"@ + dec(line_of(fl, m.start, m.file_id->0) as int) + "_"@ + dec(m.start as int)) }
pub open spec fn number(e: Expression, m: Meta, n: int) -> bool { e matches Expression::Number(meta, k) && meta == m && k@ == n }
pub open spec fn sets(s: Statement, m: Meta, name: VString) -> bool { s matches Statement::Substitution { meta, var, access, op, .. } && meta == m && var == name && access@.len() == 0 && op is AssignVar }
pub open spec fn declares_var(s: Statement, m: Meta, name: VString) -> bool { s matches Statement::Declaration { meta, xtype, name: n, dimensions, is_anonymous, .. } && meta == m && xtype is Var && n == name && dimensions@.len() == 0 && !is_anonymous }
pub open spec fn starts(s: Statement, m: Meta, name: VString) -> bool { sets(s, m, name) && number(s->Substitution_rhe, m, 0) }
pub open spec fn steps(s: Statement, m: Meta, name: VString, x: Expression) -> bool { sets(s, m, name) && (s->Substitution_rhe matches Expression::InfixOp { meta, infix_op, lhe, rhe } && meta == m && infix_op is Add && *lhe == x && number(*rhe, m, 1)) }
// the body b of a loop that needs c components: counted when it needs any
pub open spec fn loop_rel(body: Statement, b: Statement, c: nat, vs: Seq<Statement>, vs0: Seq<Statement>, ss: Seq<Statement>, ss0: Seq<Statement>, x: Expression, meta: Meta, fl: FileLibrary) -> bool {
    if c == 0 { body == b && vs == vs0 && ss == ss0 } else {
        (body matches Statement::Block { meta: bm, stmts } && bm == meta && stmts@.len() == 2 && stmts@[0] == b && steps(stmts@[1], meta, wname(fl, meta), x))
        && vs.len() == vs0.len() + 1 && declares_var(vs[0], meta, wname(fl, meta)) && vs.skip(1) == vs0
        && ss.len() == ss0.len() + 1 && starts(ss.last(), meta, wname(fl, meta)) && ss.drop_last() == ss0
    }
}
// s becomes r, with components c and counters vs to declare and ss to execute first
pub open spec fn unan_s(t: Tmpl, fl: FileLibrary, s: Statement, va: Option<Expression>, r: Statement, c: Seq<Statement>, vs: Seq<Statement>, ss: Seq<Statement>) -> bool decreases s {
    match s {
        Statement::MultSubstitution { rhe, .. } => vs.len() == 0 && ss.len() == 0 && unan_asn(t, fl, s, rhe, va, r, c),
        Statement::Substitution { rhe, .. } => vs.len() == 0 && ss.len() == 0 && unan_asn(t, fl, s, rhe, va, r, c),
        Statement::IfThenElse { meta, cond, if_case, else_case } => r matches Statement::IfThenElse { meta: m, cond: cd, if_case: i, else_case: e } && m == meta && cd == cond && match (else_case, e) {
            (None, None) => unan_s(t, fl, *if_case, va, *i, c, vs, ss),
            (Some(x), Some(y)) => exists|a: int, b: int, d: int| #[trigger] cut3(a, b, d) && 0 <= a <= c.len() && 0 <= b <= vs.len() && 0 <= d <= ss.len()
                && unan_s(t, fl, *if_case, va, *i, c.take(a), vs.take(b), ss.take(d)) && unan_s(t, fl, *x, va, *y, c.skip(a), vs.skip(b), ss.skip(d)),
            _ => false,
        },
        Statement::While { meta, cond, stmt } => r matches Statement::While { meta: m, cond: cd, stmt: body } && m == meta && cd == cond
            && exists|x: Expression, b: Statement, vs0: Seq<Statement>, ss0: Seq<Statement>| #[trigger] looped(x, b, vs0, ss0) && counts(x, fl, meta) && unan_s(t, fl, *stmt, Some(x), b, c, vs0, ss0)
            && loop_rel(*body, b, c.len(), vs, vs0, ss, ss0, x, meta, fl),
        Statement::InitializationBlock { meta, xtype, initializations } => r matches Statement::InitializationBlock { meta: m, xtype: x, initializations: w } && m == meta && x == xtype && w@.len() == initializations@.len()
            && unan_ss(t, fl, initializations, initializations@.len(), va, w@, c, vs, ss),
        Statement::Block { meta, stmts } => r matches Statement::Block { meta: m, stmts: w } && m == meta && w@.len() == stmts@.len() && unan_ss(t, fl, stmts, stmts@.len(), va, w@, c, vs, ss),
        _ => r == s && c.len() == 0 && vs.len() == 0 && ss.len() == 0,
    }
}
pub open spec fn unan_ss(t: Tmpl, fl: FileLibrary, v: Vec<Statement>, n: nat, va: Option<Expression>, w: Seq<Statement>, c: Seq<Statement>, vs: Seq<Statement>, ss: Seq<Statement>) -> bool decreases v, n {
    if n == 0 { c.len() == 0 && vs.len() == 0 && ss.len() == 0 } else { n <= v@.len() && n <= w.len() && exists|i: int, j: int, k: int| #[trigger] cut3(i, j, k) && 0 <= i <= c.len() && 0 <= j <= vs.len() && 0 <= k <= ss.len()
        && unan_ss(t, fl, v, (n - 1) as nat, va, w, c.take(i), vs.take(j), ss.take(k)) && unan_s(t, fl, v@[n - 1], va, w[n - 1], c.skip(i), vs.skip(j), ss.skip(k)) }
}
pub open spec fn can_s(t: Tmpl, s: Statement) -> bool decreases s {
    match s {
        Statement::MultSubstitution { rhe, .. } => can_e(t, rhe),
        Statement::Substitution { rhe, .. } => can_e(t, rhe),
        Statement::IfThenElse { if_case, else_case, .. } => can_s(t, *if_case) && match else_case { Some(e) => can_s(t, *e), None => true },
        Statement::While { stmt, .. } => can_s(t, *stmt),
        Statement::InitializationBlock { initializations, .. } => can_ss(t, initializations, initializations@.len()),
        Statement::Block { stmts, .. } => can_ss(t, stmts, stmts@.len()),
        _ => true,
    }
}
pub open spec fn can_ss(t: Tmpl, v: Vec<Statement>, n: nat) -> bool decreases v, n { if n == 0 { true } else { n <= v@.len() && can_ss(t, v, (n - 1) as nat) && can_s(t, v@[n - 1]) } }
pub proof fn lemma_can_ss(t: Tmpl, v: Vec<Statement>, n: nat, i: int) requires can_ss(t, v, n), 0 <= i < n ensures can_s(t, v@[i]), n <= v@.len() decreases n { if i < n - 1 { lemma_can_ss(t, v, (n - 1) as nat, i); } }
pub open spec fn filed_s() -> spec_fn(Statement) -> bool { |s: Statement| s_meta(s).file_id is Some && !(s is UnderscoreSubstitution) }
pub proof fn lemma_ss_pre(t: Tmpl, fl: FileLibrary, v: Vec<Statement>, n: nat, va: Option<Expression>, w0: Seq<Statement>, w: Seq<Statement>, c: Seq<Statement>, vs: Seq<Statement>, ss: Seq<Statement>)
    requires unan_ss(t, fl, v, n, va, w0, c, vs, ss), n <= w.len(), n <= w0.len(), forall|i: int| 0 <= i < n ==> w0[i] == #[trigger] w[i]
    ensures unan_ss(t, fl, v, n, va, w, c, vs, ss) decreases n
{
    if n > 0 {
        let (i, j, k) = choose|i: int, j: int, k: int| #[trigger] cut3(i, j, k) && 0 <= i <= c.len() && 0 <= j <= vs.len() && 0 <= k <= ss.len()
            && unan_ss(t, fl, v, (n - 1) as nat, va, w0, c.take(i), vs.take(j), ss.take(k)) && unan_s(t, fl, v@[n - 1], va, w0[n - 1], c.skip(i), vs.skip(j), ss.skip(k));
        lemma_ss_pre(t, fl, v, (n - 1) as nat, va, w0, w, c.take(i), vs.take(j), ss.take(k)); assert(cut3(i, j, k)); assert(w0[n - 1] == w[n - 1]);
    }
}
pub proof fn lemma_ss_step(t: Tmpl, fl: FileLibrary, v: Vec<Statement>, n: nat, va: Option<Expression>, w: Seq<Statement>, x: Statement, c: Seq<Statement>, vs: Seq<Statement>, ss: Seq<Statement>, c1: Seq<Statement>, vs1: Seq<Statement>, ss1: Seq<Statement>)
    requires unan_ss(t, fl, v, n, va, w, c, vs, ss), w.len() == n, n < v@.len(), unan_s(t, fl, v@[n as int], va, x, c1, vs1, ss1)
    ensures unan_ss(t, fl, v, n + 1, va, w.push(x), c + c1, vs + vs1, ss + ss1)
{
    let (i, j, k) = (c.len() as int, vs.len() as int, ss.len() as int);
    lemma_ss_pre(t, fl, v, n, va, w, w.push(x), c, vs, ss);
    assert((c + c1).take(i) =~= c && (c + c1).skip(i) =~= c1 && (vs + vs1).take(j) =~= vs && (vs + vs1).skip(j) =~= vs1 && (ss + ss1).take(k) =~= ss && (ss + ss1).skip(k) =~= ss1);
    assert(cut3(i, j, k));
}
// without components there is nothing to count
pub proof fn lemma_none(t: Tmpl, fl: FileLibrary, s: Statement, va: Option<Expression>, r: Statement, c: Seq<Statement>, vs: Seq<Statement>, ss: Seq<Statement>)
    requires unan_s(t, fl, s, va, r, c, vs, ss), c.len() == 0 ensures vs.len() == 0, ss.len() == 0 decreases s
{
    match s {
        Statement::IfThenElse { meta, cond, if_case, else_case } => { if let Statement::IfThenElse { if_case: i, else_case: e, .. } = r { match (else_case, e) {
            (None, None) => { lemma_none(t, fl, *if_case, va, *i, c, vs, ss); }
            (Some(x), Some(y)) => {
                let (a, b, d) = choose|a: int, b: int, d: int| #[trigger] cut3(a, b, d) && 0 <= a <= c.len() && 0 <= b <= vs.len() && 0 <= d <= ss.len()
                    && unan_s(t, fl, *if_case, va, *i, c.take(a), vs.take(b), ss.take(d)) && unan_s(t, fl, *x, va, *y, c.skip(a), vs.skip(b), ss.skip(d));
                lemma_none(t, fl, *if_case, va, *i, c.take(a), vs.take(b), ss.take(d)); lemma_none(t, fl, *x, va, *y, c.skip(a), vs.skip(b), ss.skip(d));
            }
            _ => {}
        } } }
        Statement::While { meta, cond, stmt } => {
            let (x, b, vs0, ss0) = choose|x: Expression, b: Statement, vs0: Seq<Statement>, ss0: Seq<Statement>| #[trigger] looped(x, b, vs0, ss0) && counts(x, fl, meta) && unan_s(t, fl, *stmt, Some(x), b, c, vs0, ss0) && vs == vs0 && ss == ss0;
            lemma_none(t, fl, *stmt, Some(x), b, c, vs0, ss0);
        }
        Statement::InitializationBlock { initializations, .. } => { lemma_nones(t, fl, initializations, initializations@.len(), va, r->InitializationBlock_initializations@, c, vs, ss); }
        Statement::Block { stmts, .. } => { lemma_nones(t, fl, stmts, stmts@.len(), va, r->Block_stmts@, c, vs, ss); }
        _ => {}
    }
}
pub proof fn lemma_nones(t: Tmpl, fl: FileLibrary, v: Vec<Statement>, n: nat, va: Option<Expression>, w: Seq<Statement>, c: Seq<Statement>, vs: Seq<Statement>, ss: Seq<Statement>)
    requires unan_ss(t, fl, v, n, va, w, c, vs, ss), c.len() == 0 ensures vs.len() == 0, ss.len() == 0 decreases v, n
{
    if n > 0 {
        let (i, j, k) = choose|i: int, j: int, k: int| #[trigger] cut3(i, j, k) && 0 <= i <= c.len() && 0 <= j <= vs.len() && 0 <= k <= ss.len()
            && unan_ss(t, fl, v, (n - 1) as nat, va, w, c.take(i), vs.take(j), ss.take(k)) && unan_s(t, fl, v@[n - 1], va, w[n - 1], c.skip(i), vs.skip(j), ss.skip(k));
        lemma_nones(t, fl, v, (n - 1) as nat, va, w, c.take(i), vs.take(j), ss.take(k)); lemma_none(t, fl, v@[n - 1], va, w[n - 1], c.skip(i), vs.skip(j), ss.skip(k));
    }
}
%end
%item UpdatedStatement
%fn remove_anonymous_from_statement ret=r
    requires all_s(stm, filed_s(), filed())
    ensures r matches Ok(u) ==> unan_s(templates@, *file_lib, stm, *var_access, u.0, u.1@, u.2@, u.3@), can_s(templates@, stm) ==> r is Ok
    decreases stm
%attr verifier::rlimit(60)
%attr verifier::spinoff_prover
%at start
broadcast use axiom_key_view;
let ghost st0 = stm; let ghost t = templates@; let ghost fl = *file_lib; let ghost va = *var_access;
%at after_let if_body 0
let ghost (i1, c1, v1, s1) = (if_body, if_comp_dec@, if_var_dec@, if_subs@);
%at after_let else_body 0
let ghost (i2, c2, v2, s2) = (else_body, else_comp_dec@, else_var_dec@, else_subs@);
%at after_call append 2
proof {
    let (a, b, d) = (c1.len() as int, v1.len() as int, s1.len() as int);
    assert(if_comp_dec@.take(a) =~= c1 && if_comp_dec@.skip(a) =~= c2 && if_var_dec@.take(b) =~= v1 && if_var_dec@.skip(b) =~= v2 && if_subs@.take(d) =~= s1 && if_subs@.skip(d) =~= s2);
    assert(cut3(a, b, d));
}
%at after_let body 0
let ghost (b0, c0, v0, s0, x0) = (body, comp_dec@, var_dec@, subs@, var_access);
%at after_let b_while 0
proof {
    assert(counts(x0, fl, meta)); assert(looped(x0, b0, v0, s0));
    if c0.len() == 0 { if let Statement::While { stmt: l, .. } = st0 { lemma_none(t, fl, *l, Some(x0), b0, c0, v0, s0); } assert(var_declarations@ =~= v0 && subs_out@ =~= s0); }
    else { assert(var_declarations@.skip(1) =~= v0); assert(subs_out@.drop_last() =~= s0); assert(starts(subs_out@.last(), meta, wname(fl, meta))); assert(declares_var(var_declarations@[0], meta, wname(fl, meta)));
        assert((*b_while)->Block_stmts@.len() == 2); assert(steps((*b_while)->Block_stmts@[1], meta, wname(fl, meta), x0)); }
}
%at loop_start 0
let ghost (w0, c0, v0, s0) = (new_inits@, comp_inits@, var_inits@, subs@);
proof { if let Statement::InitializationBlock { initializations: l, .. } = st0 { lemma_all_ss(l, l@.len(), filed_s(), filed(), it_0.pos() - 1); if can_s(t, st0) { lemma_can_ss(t, l, l@.len(), it_0.pos() - 1); } } }
%at after_let stmt_ok 0
let ghost (w1, c1, v1, s1) = (stmt_ok, comps@, vars@, sub@);
%loop 0
    st0 matches Statement::InitializationBlock { initializations: l, .. } && it_0.items() == l@ && new_inits@.len() == it_0.pos() && unan_ss(t, fl, l, it_0.pos() as nat, va, new_inits@, comp_inits@, var_inits@, subs@) && all_ss(l, l@.len(), filed_s(), filed()),
%at loop_end 0
proof { if let Statement::InitializationBlock { initializations: l, .. } = st0 {
    lemma_ss_step(t, fl, l, (it_0.pos() - 1) as nat, va, w0, w1, c0, v0, s0, c1, v1, s1);
    assert(comp_inits@ =~= c0 + c1 && var_inits@ =~= v0 + v1 && subs@ =~= s0 + s1 && new_inits@ =~= w0.push(w1));
} }
%at loop_start 1
let ghost (w0, c0, v0, s0) = (new_stmts@, comp_inits@, var_inits@, subs@);
proof { if let Statement::Block { stmts: l, .. } = st0 { lemma_all_ss(l, l@.len(), filed_s(), filed(), it_1.pos() - 1); if can_s(t, st0) { lemma_can_ss(t, l, l@.len(), it_1.pos() - 1); } } }
%at after_let stmt_ok 1
let ghost (w1, c1, v1, s1) = (stmt_ok, comps@, vars@, sub@);
%loop 1
    st0 matches Statement::Block { stmts: l, .. } && it_1.items() == l@ && new_stmts@.len() == it_1.pos() && unan_ss(t, fl, l, it_1.pos() as nat, va, new_stmts@, comp_inits@, var_inits@, subs@) && all_ss(l, l@.len(), filed_s(), filed()),
%at loop_end 1
proof { if let Statement::Block { stmts: l, .. } = st0 {
    lemma_ss_step(t, fl, l, (it_1.pos() - 1) as nat, va, w0, w1, c0, v0, s0, c1, v1, s1);
    assert(comp_inits@ =~= c0 + c1 && var_inits@ =~= v0 + v1 && subs@ =~= s0 + s1 && new_stmts@ =~= w0.push(w1));
} }
%verbatim
// ---- nothing of the sugar is left ----
pub open spec fn core_e() -> spec_fn(Expression) -> bool { |e: Expression| !(e is AnonymousComp) && !(e is Tuple) }
pub open spec fn core_s() -> spec_fn(Statement) -> bool { |s: Statement| !(s is MultSubstitution) }
pub open spec fn core(s: Statement) -> bool { all_s(s, core_s(), core_e()) }
pub proof fn lemma_both(e: Expression) requires all_e(e, no_anon()), all_e(e, no_tuple()) ensures all_e(e, core_e()) decreases e
{
    match e {
        Expression::InfixOp { lhe, rhe, .. } => { lemma_both(*lhe); lemma_both(*rhe); }
        Expression::PrefixOp { rhe, .. } => { lemma_both(*rhe); }
        Expression::ParallelOp { rhe, .. } => { lemma_both(*rhe); }
        Expression::InlineSwitchOp { cond, if_true, if_false, .. } => { lemma_both(*cond); lemma_both(*if_true); lemma_both(*if_false); }
        Expression::Variable { access, .. } => { lemma_both_acc(access, access@.len()); }
        Expression::Number(..) => {}
        Expression::Call { args, .. } => { lemma_both_es(args, args@.len()); }
        Expression::BusCall { args, .. } => { lemma_both_es(args, args@.len()); }
        Expression::AnonymousComp { params, signals, .. } => { lemma_both_es(params, params@.len()); lemma_both_es(signals, signals@.len()); }
        Expression::ArrayInLine { values, .. } => { lemma_both_es(values, values@.len()); }
        Expression::Tuple { values, .. } => { lemma_both_es(values, values@.len()); }
        Expression::UniformArray { value, dimension, .. } => { lemma_both(*value); lemma_both(*dimension); }
    }
}
pub proof fn lemma_both_es(v: Vec<Expression>, n: nat) requires all_es(v, n, no_anon()), all_es(v, n, no_tuple()) ensures all_es(v, n, core_e()) decreases v, n
{ if n > 0 { lemma_both_es(v, (n - 1) as nat); lemma_both(v@[n - 1]); } }
pub proof fn lemma_both_acc(v: Vec<Access>, n: nat) requires all_acc(v, n, no_anon()), all_acc(v, n, no_tuple()) ensures all_acc(v, n, core_e()) decreases v, n
{ if n > 0 { lemma_both_acc(v, (n - 1) as nat); if let Access::ArrayAccess(e) = v@[n - 1] { lemma_both(e); } } }
// the elements of a tuple are free of tuples
pub proof fn lemma_elems(e: Expression, i: int) requires tup_top(e), all_e(e, no_anon()), 0 <= i < elems(e).len() ensures all_e(elems(e)[i], core_e()) decreases e
{ match e { Expression::Tuple { values, .. } => { lemma_elems_n(values, values@.len(), i); } _ => { lemma_both(e); } } }
pub proof fn lemma_elems_n(v: Vec<Expression>, n: nat, i: int) requires tup_tops(v, n), all_es(v, n, no_anon()), n <= v@.len(), 0 <= i < elems_n(v, n).len() ensures all_e(elems_n(v, n)[i], core_e()) decreases v, n
{ if n > 0 { let m = elems_n(v, (n - 1) as nat).len() as int; if i < m { lemma_elems_n(v, (n - 1) as nat, i); } else { lemma_elems(v@[n - 1], i - m); } } }
pub open spec fn items_core(l: Seq<LogItem>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i] matches LogItem::Ex(e) ==> all_e(e, core_e())) }
pub proof fn lemma_log_e(e: Expression) requires tup_top(e), all_e(e, no_anon()) ensures items_core(log_e(e)) decreases e
{ match e { Expression::Tuple { values, .. } => { lemma_log_n(values, values@.len()); } _ => { lemma_both(e); } } }
pub proof fn lemma_log_n(v: Vec<Expression>, n: nat) requires tup_tops(v, n), all_es(v, n, no_anon()), n <= v@.len() ensures items_core(log_n(v, n)) decreases v, n
{ if n > 0 { lemma_log_n(v, (n - 1) as nat); lemma_log_e(v@[n - 1]); } }
pub proof fn lemma_log_args(v: Vec<LogArgument>, n: nat) requires tup_log(v, n), all_log(v, n, no_anon()), n <= v@.len() ensures items_core(log_args(v@.take(n as int))) decreases n
{ if n > 0 { lemma_log_args(v, (n - 1) as nat); assert(v@.take(n as int).drop_last() =~= v@.take(n - 1)); if let LogArgument::LogExp(e) = v@[n - 1] { lemma_log_e(e); } } }
pub proof fn lemma_view_core(v: Vec<LogArgument>, n: nat) requires n <= v@.len(), items_core(log_view(v@.take(n as int))) ensures all_log(v, n, core_e()) decreases n
{
    if n > 0 {
        let l = v@.take(n as int); assert(l.drop_last() =~= v@.take(n - 1)); let a = log_view(l.drop_last());
        assert(log_view(l) == a + arg_view(l.last()));
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i] matches LogItem::Ex(e) ==> all_e(e, core_e())) by { assert(log_view(l)[i] == a[i]); }
        lemma_view_core(v, (n - 1) as nat);
        if let LogArgument::LogExp(e) = v@[n - 1] { assert(log_view(l)[a.len() as int] == LogItem::Ex(e)); }
    }
}
// C16 relies on this: after the expansion of tuples no tuple and no assignment to one is left
pub proof fn lemma_untup_core(s: Statement, r: Statement) requires plain(s), tup_s(s), can_untup(s), untup(s, r) ensures core(r) decreases s
{
    match s {
        Statement::MultSubstitution { lhe, op, rhe, .. } => { if let Statement::Block { stmts, .. } = r { lemma_assigned(lhe, rhe, op, stmts, stmts@.len()); } }
        Statement::IfThenElse { cond, if_case, else_case, .. } => { if let Statement::IfThenElse { if_case: i, else_case: e, .. } = r { lemma_both(cond); lemma_untup_core(*if_case, *i); if let (Some(x), Some(y)) = (else_case, e) { lemma_untup_core(*x, *y); } } }
        Statement::While { cond, stmt, .. } => { lemma_both(cond); lemma_untup_core(*stmt, *(r->While_stmt)); }
        Statement::LogCall { args, .. } => { let a = r->LogCall_args; lemma_log_args(args, args@.len()); assert(args@.take(args@.len() as int) =~= args@); assert(a@.take(a@.len() as int) =~= a@); lemma_view_core(a, a@.len()); }
        Statement::InitializationBlock { initializations, .. } => { lemma_untup_cores(initializations, r->InitializationBlock_initializations, initializations@.len()); }
        Statement::Block { stmts, .. } => { lemma_untup_cores(stmts, r->Block_stmts, stmts@.len()); }
        Statement::Substitution { access, rhe, .. } => { lemma_both_acc(access, access@.len()); lemma_both(rhe); }
        Statement::Assert { arg, .. } => { lemma_both(arg); }
        Statement::Return { value, .. } => { lemma_both(value); }
        Statement::ConstraintEquality { lhe, rhe, .. } => { lemma_both(lhe); lemma_both(rhe); }
        Statement::Declaration { dimensions, .. } => { lemma_both_es(dimensions, dimensions@.len()); }
        Statement::UnderscoreSubstitution { .. } => {}
    }
}
pub proof fn lemma_untup_cores(v: Vec<Statement>, w: Vec<Statement>, n: nat) requires n <= v@.len(), all_ss(v, n, no_under(), no_anon()), tup_ss(v, n), can_untups(v, n), untups(v, w, n) ensures all_ss(w, n, core_s(), core_e()) decreases v, n
{ if n > 0 { lemma_untup_cores(v, w, (n - 1) as nat); lemma_untup_core(v@[n - 1], w@[n - 1]); } }
pub proof fn lemma_assigned(l: Expression, r: Expression, op: AssignOp, v: Vec<Statement>, n: nat)
    requires tup_top(l), tup_top(r), all_e(l, no_anon()), all_e(r, no_anon()), n <= v@.len() == elems(l).len() == elems(r).len(), forall|i: int| 0 <= i < v@.len() ==> assigns(#[trigger] v@[i], elems(l)[i], op, elems(r)[i])
    ensures all_ss(v, n, core_s(), core_e()) decreases n
{
    if n > 0 { lemma_assigned(l, r, op, v, (n - 1) as nat); lemma_elems(l, n - 1); lemma_elems(r, n - 1); let s = v@[n - 1]; assert(assigns(s, elems(l)[n - 1], op, elems(r)[n - 1]));
        if let Expression::Variable { access, .. } = elems(l)[n - 1] { assert(all_acc(access, access@.len(), core_e())); } assert(core_s()(s)); assert(all_s(s, core_s(), core_e())); }
}
%end
%verbatim
pub proof fn lemma_es_intro(v: Vec<Expression>, n: nat, p: spec_fn(Expression) -> bool) requires n <= v@.len(), forall|i: int| 0 <= i < n ==> all_e(#[trigger] v@[i], p) ensures all_es(v, n, p) decreases n
{ if n > 0 { lemma_es_intro(v, (n - 1) as nat, p); assert(all_e(v@[n - 1], p)); } }
pub open spec fn acc_e(a: Access, p: spec_fn(Expression) -> bool) -> bool { match a { Access::ArrayAccess(e) => all_e(e, p), Access::ComponentAccess(_) => true } }
pub proof fn lemma_acc_intro(v: Vec<Access>, n: nat, p: spec_fn(Expression) -> bool) requires n <= v@.len(), forall|i: int| 0 <= i < n ==> acc_e(#[trigger] v@[i], p) ensures all_acc(v, n, p) decreases n
{ if n > 0 { lemma_acc_intro(v, (n - 1) as nat, p); assert(acc_e(v@[n - 1], p)); } }
pub open spec fn plains(q: Seq<Statement>) -> bool { forall|i: int| 0 <= i < q.len() ==> plain(#[trigger] q[i]) }
pub proof fn lemma_ss_intro(v: Vec<Statement>, n: nat) requires n <= v@.len(), plains(v@) ensures all_ss(v, n, no_under(), no_anon()) decreases n
{ if n > 0 { lemma_ss_intro(v, (n - 1) as nat); assert(plain(v@[n - 1])); } }
pub open spec fn va_ok(va: Option<Expression>) -> bool { va matches Some(x) ==> all_e(x, no_anon()) }
pub proof fn lemma_vacc(va: Option<Expression>, a: Vec<Access>, c: Option<VString>) requires va_ok(va), a@ == vacc(va) || (c is Some && a@ == vacc(va).push(Access::ComponentAccess(c->0))) ensures all_acc(a, a@.len(), no_anon())
{ assert forall|i: int| 0 <= i < a@.len() implies acc_e(#[trigger] a@[i], no_anon()) by { } lemma_acc_intro(a, a@.len(), no_anon()); }
pub proof fn lemma_reads(x: Expression, m: Meta, name: VString, va: Option<Expression>, c: VString) requires reads(x, m, name, va, c), va_ok(va) ensures all_e(x, no_anon())
{ if let Expression::Variable { access, .. } = x { lemma_vacc(va, access, Some(c)); } }
pub proof fn lemma_unan_e(t: Tmpl, fl: FileLibrary, e: Expression, par: bool, va: Option<Expression>, d: Seq<Statement>, s: Seq<Statement>, v: Expression)
    requires unan_e(t, fl, e, par, va, d, s, v), anon_top(e), va_ok(va) ensures all_e(v, no_anon()), plains(d), plains(s) decreases e
{
    match e {
        Expression::ArrayInLine { values, .. } => { let w = v->ArrayInLine_values; lemma_unan_es(t, fl, values, values@.len(), va, d, s, w@); lemma_es_intro(w, w@.len(), no_anon()); }
        Expression::Tuple { values, .. } => { let w = v->Tuple_values; lemma_unan_es(t, fl, values, values@.len(), va, d, s, w@); lemma_es_intro(w, w@.len(), no_anon()); }
        Expression::AnonymousComp { meta, id, params, signals, names, is_parallel } => {
            let name = aname(fl, id, meta); let nm = arg_names(t[id], names);
            let stmts = s[0]->Block_stmts;
            let p = choose|p: Seq<int>| #[trigger] ordered(p) && order_of(p, nm) && unan_in(t, fl, meta, name, nm, signals, p, p.len(), va, d.skip(1), stmts@.skip(1));
            lemma_unan_in(t, fl, meta, name, nm, signals, p, p.len(), va, d.skip(1), stmts@.skip(1));
            let dims = d[0]->Declaration_dimensions; assert forall|i: int| 0 <= i < dims@.len() implies all_e(#[trigger] dims@[i], no_anon()) by { } lemma_es_intro(dims, dims@.len(), no_anon());
            assert(plain(d[0]));
            assert forall|i: int| 0 <= i < d.len() implies plain(#[trigger] d[i]) by { if i > 0 { assert(d[i] == d.skip(1)[i - 1]); } }
            let x = stmts@[0]; lemma_vacc(va, x->Substitution_access, None);
            let c = if is_parallel || par { *(x->Substitution_rhe->ParallelOp_rhe) } else { x->Substitution_rhe };
            let args = c->Call_args;
            assert forall|i: int| 0 <= i < args@.len() implies all_e(#[trigger] args@[i], no_anon()) by { lemma_all_es(params, params@.len(), no_anon(), i); } lemma_es_intro(args, args@.len(), no_anon());
            assert(all_e(c, no_anon())); assert(all_e(x->Substitution_rhe, no_anon()));
            assert(plain(x));
            assert forall|i: int| 0 <= i < stmts@.len() implies plain(#[trigger] stmts@[i]) by { if i > 0 { assert(stmts@[i] == stmts@.skip(1)[i - 1]); } }
            lemma_ss_intro(stmts, stmts@.len());
            assert(plain(s[0]));
            let outs = t[id].output_declarations@;
            if outs.len() == 1 { lemma_reads(v, meta, name, va, outs[0].0); }
            else { let w = v->Tuple_values; assert forall|i: int| 0 <= i < w@.len() implies all_e(#[trigger] w@[i], no_anon()) by { lemma_reads(w@[i], meta, name, va, outs[i].0); } lemma_es_intro(w, w@.len(), no_anon()); }
        }
        Expression::ParallelOp { rhe, .. } => { if *rhe is AnonymousComp { lemma_unan_e(t, fl, *rhe, true, va, d, s, v); } }
        _ => {}
    }
}
pub proof fn lemma_unan_es(t: Tmpl, fl: FileLibrary, e: Vec<Expression>, n: nat, va: Option<Expression>, d: Seq<Statement>, s: Seq<Statement>, w: Seq<Expression>)
    requires unan_es(t, fl, e, n, va, d, s, w), anon_tops(e, n), va_ok(va) ensures plains(d), plains(s), forall|i: int| 0 <= i < n ==> all_e(#[trigger] w[i], no_anon()) decreases e, n
{
    if n > 0 {
        let (i, j) = choose|i: int, j: int| #[trigger] cut(i, j) && 0 <= i <= d.len() && 0 <= j <= s.len()
            && unan_es(t, fl, e, (n - 1) as nat, va, d.take(i), s.take(j), w) && unan_e(t, fl, e@[n - 1], false, va, d.skip(i), s.skip(j), w[n - 1]);
        lemma_unan_es(t, fl, e, (n - 1) as nat, va, d.take(i), s.take(j), w); lemma_unan_e(t, fl, e@[n - 1], false, va, d.skip(i), s.skip(j), w[n - 1]);
        lemma_plains(d, i); lemma_plains(s, j);
    }
}
pub proof fn lemma_plains(d: Seq<Statement>, i: int) requires 0 <= i <= d.len(), plains(d.take(i)), plains(d.skip(i)) ensures plains(d)
{ assert forall|k: int| 0 <= k < d.len() implies plain(#[trigger] d[k]) by { if k < i { assert(plain(d.take(i)[k])); } else { assert(plain(d.skip(i)[k - i])); } } }
pub proof fn lemma_unan_in(t: Tmpl, fl: FileLibrary, m: Meta, name: VString, names: Seq<VString>, e: Vec<Expression>, p: Seq<int>, n: nat, va: Option<Expression>, d: Seq<Statement>, s: Seq<Statement>)
    requires unan_in(t, fl, m, name, names, e, p, n, va, d, s), anon_tops(e, e@.len()), va_ok(va) ensures plains(d), plains(s) decreases e, n
{
    if n > 0 {
        let (i, j) = choose|i: int, j: int| #[trigger] cut(i, j) && 0 <= i <= d.len() && 0 <= j < s.len()
            && unan_in(t, fl, m, name, names, e, p, (n - 1) as nat, va, d.take(i), s.take(j)) && unan_e(t, fl, e@[p[n - 1]], false, va, d.skip(i), s.subrange(j, s.len() - 1), s.last()->Substitution_rhe);
        lemma_unan_in(t, fl, m, name, names, e, p, (n - 1) as nat, va, d.take(i), s.take(j));
        lemma_anon_tops(e, e@.len(), p[n - 1]);
        lemma_unan_e(t, fl, e@[p[n - 1]], false, va, d.skip(i), s.subrange(j, s.len() - 1), s.last()->Substitution_rhe);
        lemma_plains(d, i);
        lemma_vacc(va, s.last()->Substitution_access, Some(names[p[n - 1]])); assert(plain(s.last()));
        assert forall|k: int| 0 <= k < s.len() implies plain(#[trigger] s[k]) by { if k < j { assert(plain(s.take(j)[k])); } else if k < s.len() - 1 { assert(plain(s.subrange(j, s.len() - 1)[k - j])); } }
    }
}
// after the expansion of anonymous components none is left
pub proof fn lemma_unan_s(t: Tmpl, fl: FileLibrary, s: Statement, va: Option<Expression>, r: Statement, c: Seq<Statement>, vs: Seq<Statement>, ss: Seq<Statement>)
    requires unan_s(t, fl, s, va, r, c, vs, ss), anon_s(s), va_ok(va) ensures plain(r), plains(c), plains(vs), plains(ss) decreases s
{
    match s {
        Statement::MultSubstitution { rhe, .. } => { lemma_asn(t, fl, s, rhe, va, r, c); }
        Statement::Substitution { rhe, .. } => { lemma_asn(t, fl, s, rhe, va, r, c); }
        Statement::IfThenElse { meta, cond, if_case, else_case } => { if let Statement::IfThenElse { if_case: i, else_case: e, .. } = r { match (else_case, e) {
            (None, None) => { lemma_unan_s(t, fl, *if_case, va, *i, c, vs, ss); }
            (Some(x), Some(y)) => {
                let (a, b, d) = choose|a: int, b: int, d: int| #[trigger] cut3(a, b, d) && 0 <= a <= c.len() && 0 <= b <= vs.len() && 0 <= d <= ss.len()
                    && unan_s(t, fl, *if_case, va, *i, c.take(a), vs.take(b), ss.take(d)) && unan_s(t, fl, *x, va, *y, c.skip(a), vs.skip(b), ss.skip(d));
                lemma_unan_s(t, fl, *if_case, va, *i, c.take(a), vs.take(b), ss.take(d)); lemma_unan_s(t, fl, *x, va, *y, c.skip(a), vs.skip(b), ss.skip(d));
                lemma_plains(c, a); lemma_plains(vs, b); lemma_plains(ss, d);
            }
            _ => {}
        } } }
        Statement::While { meta, cond, stmt } => {
            assert(r is While);
            assert(exists|x: Expression, b: Statement, vs0: Seq<Statement>, ss0: Seq<Statement>| #[trigger] looped(x, b, vs0, ss0));
            assert(exists|x: Expression, b: Statement, vs0: Seq<Statement>, ss0: Seq<Statement>| #[trigger] looped(x, b, vs0, ss0) && counts(x, fl, meta));
            assert(exists|x: Expression, b: Statement, vs0: Seq<Statement>, ss0: Seq<Statement>| #[trigger] looped(x, b, vs0, ss0) && counts(x, fl, meta) && unan_s(t, fl, *stmt, Some(x), b, c, vs0, ss0));
            let body = *(r->While_stmt);
            let (x, b, vs0, ss0) = choose|x: Expression, b: Statement, vs0: Seq<Statement>, ss0: Seq<Statement>| #[trigger] looped(x, b, vs0, ss0) && counts(x, fl, meta) && unan_s(t, fl, *stmt, Some(x), b, c, vs0, ss0)
                && loop_rel(body, b, c.len(), vs, vs0, ss, ss0, x, meta, fl);
            assert(all_acc(x->Variable_access, 0, no_anon())); assert(all_e(x, no_anon()));
            lemma_unan_s(t, fl, *stmt, Some(x), b, c, vs0, ss0);
            if c.len() > 0 {
                assert(plain(vs[0])) by { assert(all_es(vs[0]->Declaration_dimensions, 0, no_anon())); }
                let z = ss.last(); assert(all_acc(z->Substitution_access, 0, no_anon())); assert(all_e(z->Substitution_rhe, no_anon())); assert(plain(z));
                assert forall|k: int| 0 <= k < vs.len() implies plain(#[trigger] vs[k]) by { if k > 0 { assert(plain(vs.skip(1)[k - 1])); } }
                assert forall|k: int| 0 <= k < ss.len() implies plain(#[trigger] ss[k]) by { if k < ss.len() - 1 { assert(plain(ss.drop_last()[k])); } }
                let l = body->Block_stmts; let y = l@[1]; assert(all_acc(y->Substitution_access, 0, no_anon()));
                let rh = y->Substitution_rhe; assert(all_e(*(rh->InfixOp_rhe), no_anon())); assert(all_e(*(rh->InfixOp_lhe), no_anon())); assert(all_e(rh, no_anon())); assert(plain(y)); assert(plain(l@[0]));
                assert forall|k: int| 0 <= k < l@.len() implies plain(#[trigger] l@[k]) by { }
                lemma_ss_intro(l, 2); assert(plain(body));
            }
            assert(plain(body)); assert(plains(c)); assert(plains(vs)); assert(plains(ss)); assert(r is While); assert(plain(r));
        }
        Statement::InitializationBlock { initializations, .. } => { let w = r->InitializationBlock_initializations; lemma_unan_ss(t, fl, initializations, initializations@.len(), va, w@, c, vs, ss); lemma_ss_intro(w, w@.len()); assert(plain(r)); }
        Statement::Block { stmts, .. } => { let w = r->Block_stmts; lemma_unan_ss(t, fl, stmts, stmts@.len(), va, w@, c, vs, ss); lemma_ss_intro(w, w@.len()); assert(plain(r)); }
        _ => { assert(plain(r)); }
    }
}
pub proof fn lemma_unan_ss(t: Tmpl, fl: FileLibrary, v: Vec<Statement>, n: nat, va: Option<Expression>, w: Seq<Statement>, c: Seq<Statement>, vs: Seq<Statement>, ss: Seq<Statement>)
    requires unan_ss(t, fl, v, n, va, w, c, vs, ss), anon_ss(v, n), va_ok(va) ensures plains(c), plains(vs), plains(ss), forall|i: int| 0 <= i < n ==> plain(#[trigger] w[i]) decreases v, n
{
    if n > 0 {
        let (i, j, k) = choose|i: int, j: int, k: int| #[trigger] cut3(i, j, k) && 0 <= i <= c.len() && 0 <= j <= vs.len() && 0 <= k <= ss.len()
            && unan_ss(t, fl, v, (n - 1) as nat, va, w, c.take(i), vs.take(j), ss.take(k)) && unan_s(t, fl, v@[n - 1], va, w[n - 1], c.skip(i), vs.skip(j), ss.skip(k));
        lemma_unan_ss(t, fl, v, (n - 1) as nat, va, w, c.take(i), vs.take(j), ss.take(k)); lemma_unan_s(t, fl, v@[n - 1], va, w[n - 1], c.skip(i), vs.skip(j), ss.skip(k));
        lemma_plains(c, i); lemma_plains(vs, j); lemma_plains(ss, k);
    }
}
pub proof fn lemma_asn(t: Tmpl, fl: FileLibrary, s: Statement, rhe: Expression, va: Option<Expression>, r: Statement, c: Seq<Statement>)
    requires unan_asn(t, fl, s, rhe, va, r, c), anon_s(s), va_ok(va), match s { Statement::MultSubstitution { rhe: x, .. } => x == rhe, Statement::Substitution { rhe: x, .. } => x == rhe, _ => false } ensures plain(r), plains(c)
{
    let (q, v) = choose|q: Seq<Statement>, v: Expression| #[trigger] unan_e(t, fl, rhe, false, va, c, q, v)
        && if q.len() == 0 { r == with_rhe(s, v) } else { r matches Statement::Block { meta, stmts } && meta == s_meta(s) && stmts@ == q.push(with_rhe(s, v)) };
    lemma_unan_e(t, fl, rhe, false, va, c, q, v);
    assert(plain(with_rhe(s, v)));
    if q.len() > 0 { let l = r->Block_stmts; assert forall|k: int| 0 <= k < l@.len() implies plain(#[trigger] l@[k]) by { if k < q.len() { assert(plain(q[k])); } } lemma_ss_intro(l, l@.len()); }
}
%end
