%use ops.rs
%use bigint.rs
%use std.rs
%use iter.rs
%use maps.rs
%use vstring.rs
%path String::new=VString::new
%path String::from=vstring_from
%rename_method to_string=vto_string
%import ast.fns
%mod paths
%source type_analysis/src/analyzers/functions_all_paths_with_return_statement.rs
%verbatim
use super::ast::*;
use super::data::*;
// control can reach the point after s: a loop may not be entered, a missing else does nothing
pub open spec fn falls(s: Statement) -> bool decreases s {
    match s {
        Statement::Return { .. } => false,
        Statement::IfThenElse { if_case, else_case, .. } => falls(*if_case) || match else_case { Some(e) => falls(*e), None => true },
        Statement::Block { stmts, .. } => falls_all(stmts, stmts@.len()),
        _ => true,
    }
}
pub open spec fn falls_all(v: Vec<Statement>, n: nat) -> bool decreases v, n {
    if n == 0 { true } else if n > v@.len() { true } else { falls_all(v, (n - 1) as nat) && falls(v@[n - 1]) }
}
%end
%fn all_paths_with_return_check ret=r
    ensures r is Ok == !falls(function_data.body)
%fn analyse_statement ret=r
    ensures r == !falls(*stmt)
    decreases stmt
%fn analyse_block ret=r
    ensures r == !falls_all(*block, block@.len())
    decreases block
%loop 0
    has_return_path == !falls_all(*block, it_0.pos() as nat),

%mod returns
%source type_analysis/src/analyzers/no_returns_in_template.rs
%verbatim
use super::ast::*;
use super::ast::file_definition;
use super::data::*;
pub open spec fn no_ret() -> spec_fn(Statement) -> bool { |s: Statement| !(s is Return) }
pub open spec fn free_ret(s: Statement) -> bool { all_s(s, no_ret(), any_e()) }
pub proof fn lemma_ret(s: Statement) requires ready(s) ensures match s {
        Statement::IfThenElse { cond, if_case, else_case, .. } => free_ret(s) == (free_ret(*if_case) && match else_case { Some(e) => free_ret(*e), None => true }),
        Statement::While { cond, stmt, .. } => free_ret(s) == free_ret(*stmt),
        Statement::Block { .. } => true,
        Statement::Return { .. } => !free_ret(s),
        _ => free_ret(s),
    }
{
    match s {
        Statement::IfThenElse { cond, .. } => { lemma_any(cond); }
        Statement::While { cond, .. } => { lemma_any(cond); }
        Statement::InitializationBlock { initializations, .. } => { assert(weaker(flat(), no_ret())); lemma_weaker_ss(initializations, initializations@.len(), flat(), no_ret()); }
        Statement::Block { .. } => {}
        Statement::Return { .. } => {}
        _ => { lemma_leaf(s, no_ret()); }
    }
}
%end
%fn look_for_return
    requires ready(*stmt)
    ensures final(reports)@.len() >= old(reports)@.len(),
        (final(reports)@.len() == old(reports)@.len()) == free_ret(*stmt)
    decreases stmt
%at start
proof { lemma_ret(*stmt); }
%at loop_start 0
proof { lemma_all_ss(*stmts, stmts@.len(), rdy_s(), rdy_e(), it_0.pos() - 1); }
%loop 0
    reports@.len() >= old(reports)@.len(), ready(*stmt), *stmt matches Statement::Block { stmts: v, .. } && v == *stmts,
    (reports@.len() == old(reports)@.len()) == all_ss(*stmts, it_0.pos() as nat, no_ret(), any_e()),
%fn free_of_returns ret=r
    requires ready(template_data.body)
    ensures r is Ok == free_ret(template_data.body), r matches Err(e) ==> e@.len() > 0

%mod signals
%source type_analysis/src/analyzers/signal_declaration_analysis.rs
%verbatim
use super::ast::*;
use super::ast::file_definition;
use super::data::*;
// declares a signal, bus or component
pub open spec fn circuit_decl(s: Statement) -> bool {
    match s { Statement::InitializationBlock { xtype, .. } => xtype is Signal || xtype is Bus || xtype is Component, _ => false }
}
pub open spec fn no_decl() -> spec_fn(Statement) -> bool { |s: Statement| !circuit_decl(s) }
pub open spec fn bodies_clear() -> spec_fn(Statement) -> bool { |s: Statement| match s { Statement::While { stmt, .. } => all_s(*stmt, no_decl(), any_e()), _ => true } }
// no loop declares a signal, bus or component
pub open spec fn loops_clear(s: Statement) -> bool { all_s(s, bodies_clear(), any_e()) }
pub open spec fn sd(s: Statement, allowed: bool) -> bool { if allowed { loops_clear(s) } else { all_s(s, no_decl(), any_e()) } }
pub open spec fn sds(v: Vec<Statement>, n: nat, allowed: bool) -> bool { if allowed { all_ss(v, n, bodies_clear(), any_e()) } else { all_ss(v, n, no_decl(), any_e()) } }
pub proof fn lemma_clear(s: Statement) requires all_s(s, no_decl(), any_e()) ensures loops_clear(s) decreases s
{
    match s {
        Statement::IfThenElse { if_case, else_case, .. } => { lemma_clear(*if_case); if let Some(e) = else_case { lemma_clear(*e); } }
        Statement::While { stmt, .. } => { lemma_clear(*stmt); }
        Statement::InitializationBlock { initializations, .. } => { lemma_clears(initializations, initializations@.len()); }
        Statement::Block { stmts, .. } => { lemma_clears(stmts, stmts@.len()); }
        _ => {}
    }
}
pub proof fn lemma_clears(v: Vec<Statement>, n: nat) requires all_ss(v, n, no_decl(), any_e()) ensures all_ss(v, n, bodies_clear(), any_e()) decreases v, n
{ if n > 0 { lemma_clears(v, (n - 1) as nat); lemma_clear(v@[n - 1]); } }
pub proof fn lemma_sd(s: Statement) requires ready(s) ensures forall|a: bool| #![trigger sd(s, a)] match s {
        Statement::IfThenElse { cond, if_case, else_case, .. } => sd(s, a) == (sd(*if_case, a) && match else_case { Some(e) => sd(*e, a), None => true }),
        Statement::While { cond, stmt, .. } => sd(s, a) == sd(*stmt, false),
        Statement::Block { .. } => true,
        Statement::InitializationBlock { .. } => sd(s, a) == (a || !circuit_decl(s)),
        _ => sd(s, a),
    }
{
    match s {
        Statement::IfThenElse { cond, .. } => { lemma_any(cond); }
        Statement::While { cond, stmt: b, .. } => { lemma_any(cond); if all_s(*b, no_decl(), any_e()) { lemma_clear(*b); } }
        Statement::InitializationBlock { initializations, .. } => {
            assert(weaker(flat(), no_decl())); lemma_weaker_ss(initializations, initializations@.len(), flat(), no_decl());
            assert(weaker(flat(), bodies_clear())); lemma_weaker_ss(initializations, initializations@.len(), flat(), bodies_clear());
        }
        Statement::Block { .. } => {}
        _ => { lemma_leaf(s, no_decl()); lemma_leaf(s, bodies_clear()); }
    }
}
%end
%fn treat_statement
    requires ready(*stmt)
    ensures final(reports)@.len() >= old(reports)@.len(),
        (final(reports)@.len() == old(reports)@.len()) == sd(*stmt, signal_declaration_allowed)
    decreases stmt
%at start
proof { lemma_sd(*stmt); }
%at loop_start 0
proof { lemma_all_ss(*stmts, stmts@.len(), rdy_s(), rdy_e(), it_0.pos() - 1); }
%loop 0
    reports@.len() >= old(reports)@.len(), ready(*stmt), *stmt matches Statement::Block { stmts: v, .. } && v == *stmts,
    (reports@.len() == old(reports)@.len()) == sds(*stmts, it_0.pos() as nat, signal_declaration_allowed),
%fn check_signal_correctness ret=r
    requires ready(template_data.body), template_data.body is Block
    ensures r is Ok == loops_clear(template_data.body), r matches Err(e) ==> e@.len() > 0
%at loop_start 0
proof { lemma_all_ss(*template_body, template_body@.len(), rdy_s(), rdy_e(), it_0.pos() - 1); }
%loop 0
    (reports@.len() == 0) == sds(*template_body, it_0.pos() as nat, true), ready(template_data.body), template_data.body matches Statement::Block { stmts: v, .. } && v == *template_body,

%mod data
%verbatim
use super::ast::*;
#[verifier::external_body]
pub struct WireData { x: u8 }
pub type WireInfo = HashMap<VString, WireData>;
pub type WireDeclarationOrder = Vec<(VString, usize)>;
#[verifier::external_body]
pub struct FileLibrary { x: u8 }
impl std::ops::Deref for VString { type Target = str;
    #[verifier::external_body] fn deref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
%end
%source program_structure/src/program_library/template_data.rs
%item TemplateInfo
%item TemplateData
%fn TemplateData::get_file_id ret=r
    ensures r == self.file_id
%fn TemplateData::get_body ret=r
    ensures *r == self.body
%fn TemplateData::get_body_as_vec ret=r
    requires self.body is Block
    ensures self.body matches Statement::Block { stmts: v, .. } && v == *r
%fn TemplateData::get_param_location ret=r
%fn TemplateData::get_num_of_params ret=r
    ensures r == self.num_of_params
%fn TemplateData::get_name_of_params ret=r
    ensures *r == self.name_of_params
%fn TemplateData::get_inputs ret=r
    ensures *r == self.input_wires
%fn TemplateData::is_custom_gate ret=r
    ensures r == self.is_custom_gate
%fn TemplateData::is_extern_c ret=r
    ensures r == self.is_extern_c
%source program_structure/src/program_library/function_data.rs
%item FunctionInfo
%item FunctionData
%fn FunctionData::get_file_id ret=r
    ensures r == self.file_id
%fn FunctionData::get_body ret=r
    ensures *r == self.body
%fn FunctionData::get_body_as_vec ret=r
    requires self.body is Block
    ensures self.body matches Statement::Block { stmts: v, .. } && v == *r
%fn FunctionData::get_param_location ret=r
%fn FunctionData::get_num_of_params ret=r
    ensures r == self.num_of_params
%fn FunctionData::get_name_of_params ret=r
    ensures *r == self.name_of_params
%source program_structure/src/program_library/bus_data.rs
%item BusInfo
%item BusData
%fn BusData::get_file_id ret=r
    ensures r == self.file_id
%fn BusData::get_body ret=r
    ensures *r == self.body
%fn BusData::get_body_as_vec ret=r
    requires self.body is Block
    ensures self.body matches Statement::Block { stmts: v, .. } && v == *r
%fn BusData::get_param_location ret=r
%fn BusData::get_num_of_params ret=r
    ensures r == self.num_of_params
%fn BusData::get_name_of_params ret=r
    ensures *r == self.name_of_params
%fn BusData::get_fields ret=r
    ensures *r == self.fields
%fn FunctionData::get_name ret=r
%source program_structure/src/program_library/program_archive.rs
%item ProgramArchive
%fn ProgramArchive::contains_template ret=r
    ensures r == self.templates@.contains_key(key(template_name@))
%fn ProgramArchive::get_template_data ret=r
    requires self.templates@.contains_key(key(template_name@))
    ensures *r == self.templates@[key(template_name@)]
%fn ProgramArchive::get_template_names ret=r
    ensures *r == self.template_keys
%fn ProgramArchive::get_templates ret=r
    ensures *r == self.templates
%fn ProgramArchive::get_function_names ret=r
    ensures *r == self.function_keys
%fn ProgramArchive::get_functions ret=r
    ensures *r == self.functions
%fn ProgramArchive::get_bus_names ret=r
    ensures *r == self.bus_keys
%fn ProgramArchive::get_buses ret=r
    ensures *r == self.buses
%fn ProgramArchive::get_public_inputs_main_component ret=r
    ensures *r == self.public_inputs
%fn ProgramArchive::get_main_expression ret=r
    ensures *r == self.initial_template_call
%fn ProgramArchive::remove_template
    ensures final(self).templates@ == old(self).templates@.remove(key(id@)), final(self).template_keys@ == old(self).template_keys@.remove(key(id@)),
        final(self).functions == old(self).functions, final(self).function_keys == old(self).function_keys, final(self).buses == old(self).buses, final(self).bus_keys == old(self).bus_keys, final(self).initial_template_call == old(self).initial_template_call
%fn ProgramArchive::remove_function
    ensures final(self).functions@ == old(self).functions@.remove(key(id@)), final(self).function_keys@ == old(self).function_keys@.remove(key(id@)),
        final(self).templates == old(self).templates, final(self).template_keys == old(self).template_keys, final(self).buses == old(self).buses, final(self).bus_keys == old(self).bus_keys, final(self).initial_template_call == old(self).initial_template_call
%fn ProgramArchive::remove_bus
    ensures final(self).buses@ == old(self).buses@.remove(key(id@)), final(self).bus_keys@ == old(self).bus_keys@.remove(key(id@)),
        final(self).templates == old(self).templates, final(self).template_keys == old(self).template_keys, final(self).functions == old(self).functions, final(self).function_keys == old(self).function_keys, final(self).initial_template_call == old(self).initial_template_call
%verbatim
pub open spec fn good_body(s: Statement) -> bool { s is Block && ready(s) }
// what the parser and the archive's constructor deliver
pub open spec fn arch_ok(a: ProgramArchive) -> bool {
    &&& a.template_keys@ == a.templates@.dom() && a.function_keys@ == a.functions@.dom() && a.bus_keys@ == a.buses@.dom()
    &&& forall|k: VString| #[trigger] a.templates@.contains_key(k) ==> good_body(a.templates@[k].body)
    &&& forall|k: VString| #[trigger] a.functions@.contains_key(k) ==> good_body(a.functions@[k].body)
    &&& forall|k: VString| #[trigger] a.buses@.contains_key(k) ==> good_body(a.buses@[k].body)
    &&& ready_e(a.initial_template_call)
}
pub open spec fn all_vals<K, V>(m: Map<K, V>, p: spec_fn(V) -> bool) -> bool { forall|k: K| #[trigger] m.contains_key(k) ==> p(m[k]) }
pub open spec fn all_items<V>(s: Seq<&V>, n: int, p: spec_fn(V) -> bool) -> bool { forall|i: int| 0 <= i < n ==> p(*#[trigger] s[i]) }
pub proof fn lemma_vals<K, V>(s: Seq<&V>, m: Map<K, V>, p: spec_fn(V) -> bool) requires valseq_ref(s, m) ensures all_vals(m, p) == all_items(s, s.len() as int, p)
{
    reveal(valseq_ref);
    let ks = choose|ks: Seq<K>| #[trigger] keyseq(ks, m.dom()) && ks.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] ks[i]) && m[ks[i]] == *s[i];
    if all_vals(m, p) { assert forall|i: int| 0 <= i < s.len() implies p(*#[trigger] s[i]) by { assert(m.contains_key(ks[i])); } }
    if all_items(s, s.len() as int, p) {
        assert forall|k: K| #[trigger] m.contains_key(k) implies p(m[k]) by { assert(ks.to_set().contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(p(*s[i])); }
    }
}
%end

%mod functions
%source type_analysis/src/analyzers/functions_free_of_template_elements.rs
%verbatim
use super::ast::*;
use super::ast::file_definition;
use super::data::*;
// only functions are called and nothing of a component is mentioned
pub open spec fn fn_e(names: Set<VString>) -> spec_fn(Expression) -> bool {
    |e: Expression| match e {
        Expression::Call { id, .. } => names.contains(id),
        Expression::BusCall { .. } => false,
        Expression::Variable { access, .. } => indices(access@, access@.len()),
        _ => true,
    }
}
pub open spec fn indices(v: Seq<Access>, n: nat) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] v[i]) is ArrayAccess }
pub open spec fn fn_acc(v: Vec<Access>, n: nat, names: Set<VString>) -> bool { indices(v@, n) && all_acc(v, n, fn_e(names)) }
// nothing of a circuit: no signal, component or bus, no signal assignment, no constraint
pub open spec fn fn_s() -> spec_fn(Statement) -> bool {
    |s: Statement| match s {
        Statement::InitializationBlock { xtype, .. } => !(xtype is Signal),
        Statement::Declaration { xtype, .. } => xtype is Var,
        Statement::Substitution { op, access, .. } => !signal_op(op) && indices(access@, access@.len()),
        Statement::UnderscoreSubstitution { op, .. } => !signal_op(op),
        Statement::ConstraintEquality { .. } => false,
        _ => true,
    }
}
pub open spec fn fn_ok(s: Statement, names: Set<VString>) -> bool { all_s(s, fn_s(), fn_e(names)) }
%end
%fn free_of_template_elements ret=r
    requires ready(function_data.body)
    ensures r is Ok == fn_ok(function_data.body, function_names@), r matches Err(e) ==> e@.len() > 0
%fn analyse_statement
    requires ready(*stmt)
    ensures final(reports)@.len() >= old(reports)@.len(),
        (final(reports)@.len() == old(reports)@.len()) == fn_ok(*stmt, function_names@)
    decreases stmt
%loop 0
    reports@.len() >= old(reports)@.len(), ready(*stmt_0), *stmt_0 matches Statement::Block { stmts: v, .. } && v == *stmts,
    (reports@.len() == old(reports)@.len()) == all_ss(*stmts, it_0.pos() as nat, fn_s(), fn_e(function_names@)),
%at start
let ghost stmt_0 = stmt;
%at loop_start 0
proof { lemma_all_ss(*stmts, stmts@.len(), rdy_s(), rdy_e(), it_0.pos() - 1); }
%loop 1
    reports@.len() >= old(reports)@.len(), ready(*stmt_0), *stmt_0 matches Statement::InitializationBlock { initializations: v, .. } && v == *initializations,
    (reports@.len() == old(reports)@.len()) == all_ss(*initializations, it_1.pos() as nat, fn_s(), fn_e(function_names@)),
%at loop_start 1
proof { lemma_all_ss(*initializations, initializations@.len(), rdy_s(), rdy_e(), it_1.pos() - 1); }
%loop 2
    reports@.len() >= old(reports)@.len(), ready(*stmt_0), *stmt_0 matches Statement::Declaration { dimensions: v, .. } && v == *dimensions,
    (reports@.len() == old(reports)@.len()) == all_es(*dimensions, it_2.pos() as nat, fn_e(function_names@)),
%at loop_start 2
proof { lemma_all_es(*dimensions, dimensions@.len(), rdy_e(), it_2.pos() - 1); }
%loop 3
    reports@.len() >= old(reports)@.len(), ready(*stmt_0), *stmt_0 matches Statement::LogCall { args: v, .. } && v == *args,
    (reports@.len() == old(reports)@.len()) == all_log(*args, it_3.pos() as nat, fn_e(function_names@)),
%at loop_start 3
proof { lemma_all_log(*args, args@.len(), rdy_e(), it_3.pos() - 1); }
%fn analyse_access
    requires all_acc(*access, access@.len(), rdy_e()), meta.file_id is Some
    ensures final(reports)@.len() >= old(reports)@.len(),
        (final(reports)@.len() == old(reports)@.len()) == fn_acc(*access, access@.len(), function_names@)
    decreases access
%loop 0
    reports@.len() >= old(reports)@.len(), all_acc(*access, access@.len(), rdy_e()), meta.file_id is Some,
    (reports@.len() == old(reports)@.len()) == fn_acc(*access, it_0.pos() as nat, function_names@),
%at loop_start 0
proof { lemma_all_acc(*access, access@.len(), rdy_e(), it_0.pos() - 1); }
%fn analyse_expression
    requires ready_e(*expr)
    ensures final(reports)@.len() >= old(reports)@.len(),
        (final(reports)@.len() == old(reports)@.len()) == all_e(*expr, fn_e(function_names@))
    decreases expr
%loop 0
    reports@.len() >= old(reports)@.len(), ready_e(*expr), *expr matches Expression::Call { args: v, id: w, .. } && v == *args && w == *id,
    (reports@.len() == old(reports)@.len()) == (function_names@.contains(*id) && all_es(*args, it_0.pos() as nat, fn_e(function_names@))),
%at loop_start 0
proof { lemma_all_es(*args, args@.len(), rdy_e(), it_0.pos() - 1); }
%loop 1
    reports@.len() >= old(reports)@.len(), ready_e(*expr), *expr matches Expression::ArrayInLine { values: v, .. } && v == *values,
    (reports@.len() == old(reports)@.len()) == all_es(*values, it_1.pos() as nat, fn_e(function_names@)),
%at loop_start 1
proof { lemma_all_es(*values, values@.len(), rdy_e(), it_1.pos() - 1); }

%mod buses
%source type_analysis/src/analyzers/buses_free_of_invalid_statements.rs
%verbatim
use super::ast::*;
use super::ast::file_definition;
use super::data::*;
use super::functions::{fn_e, fn_acc, indices};
impl VEq<SignalType> for SignalType {
    open spec fn veq_spec(&self, o: &SignalType) -> bool { *self == *o }
    #[verifier::external_body] fn veq(&self, o: &SignalType) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vne(&self, o: &SignalType) -> (b: bool) { unimplemented!() }
}
pub open spec fn field_type(x: VariableType) -> bool {
    match x { VariableType::Signal(t, _) => t is Intermediate, VariableType::Bus(_, t, _) => t is Intermediate, _ => false }
}
// a bus body only declares fields and instantiates buses
pub open spec fn bus_ok(s: Statement, names: Set<VString>) -> bool decreases s {
    match s {
        Statement::Block { stmts, .. } => buses_ok(stmts, stmts@.len(), names),
        Statement::InitializationBlock { initializations, .. } => buses_ok(initializations, initializations@.len(), names),
        Statement::Declaration { xtype, dimensions, .. } => field_type(xtype) && all_es(dimensions, dimensions@.len(), fn_e(names)),
        Statement::Substitution { rhe, access, .. } => bus_array(rhe) && fn_acc(access, access@.len(), names),
        Statement::UnderscoreSubstitution { rhe, .. } => bus_array(rhe),
        _ => false,
    }
}
pub open spec fn buses_ok(v: Vec<Statement>, n: nat, names: Set<VString>) -> bool decreases v, n {
    if n == 0 { true } else { n <= v@.len() && buses_ok(v, (n - 1) as nat, names) && bus_ok(v@[n - 1], names) }
}
%end
%fn free_of_invalid_statements ret=r
    requires ready(bus_data.body)
    ensures r is Ok == bus_ok(bus_data.body, function_names@), r matches Err(e) ==> e@.len() > 0
%fn report_undefined_bus_error
    ensures final(reports)@.len() == old(reports)@.len() + 1
%fn analyse_statement ops
    requires ready(*stmt)
    ensures final(reports)@.len() >= old(reports)@.len(),
        (final(reports)@.len() == old(reports)@.len()) == bus_ok(*stmt, function_names@)
    decreases stmt
%loop 0
    reports@.len() >= old(reports)@.len(), ready(*stmt_0), *stmt_0 matches Statement::Block { stmts: v, .. } && v == *stmts,
    (reports@.len() == old(reports)@.len()) == buses_ok(*stmts, it_0.pos() as nat, function_names@),
%at start
let ghost stmt_0 = stmt;
%at loop_start 0
proof { lemma_all_ss(*stmts, stmts@.len(), rdy_s(), rdy_e(), it_0.pos() - 1); }
%loop 1
    reports@.len() >= old(reports)@.len(), ready(*stmt_0), *stmt_0 matches Statement::InitializationBlock { initializations: v, .. } && v == *initializations,
    (reports@.len() == old(reports)@.len()) == buses_ok(*initializations, it_1.pos() as nat, function_names@),
%at loop_start 1
proof { lemma_all_ss(*initializations, initializations@.len(), rdy_s(), rdy_e(), it_1.pos() - 1); }
%loop 2
    reports@.len() >= old(reports)@.len(), ready(*stmt_0), *stmt_0 matches Statement::Declaration { dimensions: v, .. } && v == *dimensions,
    (reports@.len() == old(reports)@.len()) == all_es(*dimensions, it_2.pos() as nat, fn_e(function_names@)),
%at loop_start 2
proof { lemma_all_es(*dimensions, dimensions@.len(), rdy_e(), it_2.pos() - 1); }
%fn analyse_access
    requires all_acc(*access, access@.len(), rdy_e()), meta.file_id is Some
    ensures final(reports)@.len() >= old(reports)@.len(),
        (final(reports)@.len() == old(reports)@.len()) == fn_acc(*access, access@.len(), function_names@)
    decreases access
%loop 0
    reports@.len() >= old(reports)@.len(), all_acc(*access, access@.len(), rdy_e()), meta.file_id is Some,
    (reports@.len() == old(reports)@.len()) == fn_acc(*access, it_0.pos() as nat, function_names@),
%at loop_start 0
proof { lemma_all_acc(*access, access@.len(), rdy_e(), it_0.pos() - 1); }
%fn analyse_expression
    requires ready_e(*expr)
    ensures final(reports)@.len() >= old(reports)@.len(),
        (final(reports)@.len() == old(reports)@.len()) == all_e(*expr, fn_e(function_names@))
    decreases expr
%loop 0
    reports@.len() >= old(reports)@.len(), ready_e(*expr), *expr matches Expression::Call { args: v, id: w, .. } && v == *args && w == *id,
    (reports@.len() == old(reports)@.len()) == (function_names@.contains(*id) && all_es(*args, it_0.pos() as nat, fn_e(function_names@))),
%at loop_start 0
proof { lemma_all_es(*args, args@.len(), rdy_e(), it_0.pos() - 1); }
%loop 1
    reports@.len() >= old(reports)@.len(), ready_e(*expr), *expr matches Expression::ArrayInLine { values: v, .. } && v == *values,
    (reports@.len() == old(reports)@.len()) == all_es(*values, it_1.pos() as nat, fn_e(function_names@)),
%at loop_start 1
proof { lemma_all_es(*values, values@.len(), rdy_e(), it_1.pos() - 1); }

%mod gates
%source type_analysis/src/analyzers/custom_gate_analysis.rs
%verbatim
use super::ast::*;
// a custom template adds no constraint and contains no component
pub open spec fn gate_s() -> spec_fn(Statement) -> bool {
    |s: Statement| match s {
        Statement::Declaration { xtype, .. } => !(xtype is Component || xtype is AnonymousComponent),
        Statement::Substitution { op, .. } => !(op is AssignConstraintSignal),
        Statement::UnderscoreSubstitution { op, .. } => !(op is AssignConstraintSignal),
        Statement::ConstraintEquality { .. } => false,
        _ => true,
    }
}
pub open spec fn gate_ok(s: Statement) -> bool { all_s(s, gate_s(), any_e()) }
pub proof fn lemma_gate(s: Statement) ensures match s {
        Statement::IfThenElse { cond, if_case, else_case, .. } => gate_ok(s) == (gate_ok(*if_case) && match else_case { Some(e) => gate_ok(*e), None => true }),
        Statement::While { cond, stmt, .. } => gate_ok(s) == gate_ok(*stmt),
        Statement::Block { .. } => true,
        Statement::InitializationBlock { .. } => true,
        _ => gate_ok(s) == gate_s()(s),
    }
{
    match s {
        Statement::IfThenElse { cond, .. } => { lemma_any(cond); }
        Statement::While { cond, .. } => { lemma_any(cond); }
        Statement::InitializationBlock { .. } => {}
        Statement::Block { .. } => {}
        _ => { if gate_s()(s) { lemma_leaf(s, gate_s()); } }
    }
}
%end
%fn custom_gate_analysis ret=r
    requires ready(*custom_gate_body)
    ensures r is Ok == gate_ok(*custom_gate_body), r matches Err(e) ==> e@.len() > 0
%fn custom_gate_analysis__inner
    requires ready(*stmt)
    ensures final(errors)@.len() >= old(errors)@.len(),
        (final(errors)@.len() == old(errors)@.len()) == gate_ok(*stmt)
    decreases stmt
%at start
let ghost stmt_0 = stmt;
proof { lemma_gate(*stmt); }
%loop 0
    errors@.len() >= old(errors)@.len(), ready(*stmt_0), *stmt_0 matches Statement::InitializationBlock { initializations: v, .. } && v == *initializations,
    (errors@.len() == old(errors)@.len()) == all_ss(*initializations, it_0.pos() as nat, gate_s(), any_e()),
%at loop_start 0
proof { lemma_all_ss(*initializations, initializations@.len(), rdy_s(), rdy_e(), it_0.pos() - 1); }
%loop 1
    errors@.len() >= old(errors)@.len(), ready(*stmt_0), *stmt_0 matches Statement::Block { stmts: v, .. } && v == *stmts,
    (errors@.len() == old(errors)@.len()) == all_ss(*stmts, it_1.pos() as nat, gate_s(), any_e()),
%at loop_start 1
proof { lemma_all_ss(*stmts, stmts@.len(), rdy_s(), rdy_e(), it_1.pos() - 1); }

%mod names
%path Environment::new=Vec::<HashSet<VString>>::new
%path Block::new=HashSet::<VString>::new
%source type_analysis/src/analyzers/symbol_analysis.rs
%item Environment
%verbatim
use super::ast::{Access, Expression, LogArgument, Meta, Statement, VariableType, Report, ReportCode, ReportCollection, FileID, FileLocation, file_definition};
use super::ast::{e_meta, s_meta, all_e, all_es, all_acc, all_log, all_ss, rdy_e, rdy_s, ready, ready_e, lemma_all_es, lemma_all_acc, lemma_all_log, lemma_all_ss};
use super::data::*;
type Block = HashSet<VString>;
pub type Fns = Map<VString, FunctionData>;
pub type Tpls = Map<VString, TemplateData>;
pub type Buses = Map<VString, BusData>;
pub type Scope = Seq<Set<VString>>;
pub closed spec fn env(e: Environment) -> Scope { Seq::new(e@.len(), |i: int| e@[i]@) }
pub proof fn lemma_env(e: Environment) ensures env(e).len() == e@.len(), forall|i: int| #![trigger env(e)[i]] #![trigger e@[i]] 0 <= i < e@.len() ==> env(e)[i] == e@[i]@ {}
pub open spec fn visible(s: Scope, x: VString) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).contains(x) }
// names are visible where they are used, calls name something that exists and have as many arguments as it has parameters
pub open spec fn use_e(f: Fns, t: Tpls, b: Buses, s: Scope) -> spec_fn(Expression) -> bool {
    |e: Expression| match e {
        Expression::Variable { name, .. } => visible(s, name),
        Expression::Call { id, args, .. } => (f.contains_key(id) && args@.len() == f[id].num_of_params) || (!f.contains_key(id) && t.contains_key(id) && args@.len() == t[id].num_of_params),
        Expression::BusCall { id, args, .. } => b.contains_key(id) && args@.len() == b[id].num_of_params,
        _ => true,
    }
}
// the scopes after s
pub open spec fn declare(s: Scope, x: VString) -> Scope { s.update(s.len() - 1, s.last().insert(x)) }
pub open spec fn after(st: Statement, s: Scope) -> Scope decreases st {
    match st {
        Statement::Declaration { name, .. } => declare(s, name),
        Statement::InitializationBlock { initializations, .. } => after_all(initializations, initializations@.len(), s),
        Statement::While { stmt, .. } => after(*stmt, s),
        Statement::IfThenElse { if_case, else_case, .. } => match else_case { Some(e) => after(*e, after(*if_case, s)), None => after(*if_case, s) },
        _ => s,
    }
}
pub open spec fn after_all(v: Vec<Statement>, n: nat, s: Scope) -> Scope decreases v, n {
    if n == 0 || n > v@.len() { s } else { after(v@[n - 1], after_all(v, (n - 1) as nat, s)) }
}
pub open spec fn tags_free(b: Buses, x: VariableType, n: int) -> bool {
    match x { VariableType::Bus(bn, _, tags) => b.contains_key(bn) ==> forall|i: int| 0 <= i < n ==> !b[bn].fields@.contains_key(#[trigger] tags@[i]), _ => true }
}
pub open spec fn n_tags(x: VariableType) -> int { match x { VariableType::Bus(_, _, tags) => tags@.len() as int, _ => 0 } }
// every name used in st is declared before in an enclosing block, and no block declares a name twice
pub open spec fn named(st: Statement, f: Fns, t: Tpls, b: Buses, s: Scope) -> bool decreases st {
    match st {
        Statement::MultSubstitution { .. } => true,
        Statement::Return { value, .. } => all_e(value, use_e(f, t, b, s)),
        Statement::UnderscoreSubstitution { rhe, .. } => all_e(rhe, use_e(f, t, b, s)),
        Statement::Substitution { var, access, rhe, .. } => all_e(rhe, use_e(f, t, b, s)) && visible(s, var) && all_acc(access, access@.len(), use_e(f, t, b, s)),
        Statement::ConstraintEquality { lhe, rhe, .. } => all_e(lhe, use_e(f, t, b, s)) && all_e(rhe, use_e(f, t, b, s)),
        Statement::InitializationBlock { initializations, .. } => all_named(initializations, initializations@.len(), f, t, b, s),
        Statement::Declaration { name, dimensions, xtype, .. } => all_es(dimensions, dimensions@.len(), use_e(f, t, b, s)) && !s.last().contains(name) && tags_free(b, xtype, n_tags(xtype)),
        Statement::LogCall { args, .. } => all_log(args, args@.len(), use_e(f, t, b, s)),
        Statement::Assert { arg, .. } => all_e(arg, use_e(f, t, b, s)),
        Statement::Block { stmts, .. } => all_named(stmts, stmts@.len(), f, t, b, s.push(Set::empty())),
        Statement::While { stmt, cond, .. } => all_e(cond, use_e(f, t, b, s)) && named(*stmt, f, t, b, s),
        Statement::IfThenElse { cond, if_case, else_case, .. } => all_e(cond, use_e(f, t, b, s)) && named(*if_case, f, t, b, s)
            && match else_case { Some(e) => named(*e, f, t, b, after(*if_case, s)), None => true },
    }
}
pub open spec fn all_named(v: Vec<Statement>, n: nat, f: Fns, t: Tpls, b: Buses, s: Scope) -> bool decreases v, n {
    if n == 0 { true } else { n <= v@.len() && all_named(v, (n - 1) as nat, f, t, b, s) && named(v@[n - 1], f, t, b, after_all(v, (n - 1) as nat, s)) }
}
pub proof fn lemma_after(st: Statement, s: Scope) requires s.len() > 0 ensures after(st, s).len() == s.len(), after(st, s).drop_last() =~= s.drop_last() decreases st
{
    match st {
        Statement::Declaration { name, .. } => {}
        Statement::InitializationBlock { initializations, .. } => { lemma_after_all(initializations, initializations@.len(), s); }
        Statement::While { stmt, .. } => { lemma_after(*stmt, s); }
        Statement::IfThenElse { if_case, else_case, .. } => { lemma_after(*if_case, s); if let Some(e) = else_case { lemma_after(*e, after(*if_case, s)); } }
        _ => {}
    }
}
pub proof fn lemma_after_all(v: Vec<Statement>, n: nat, s: Scope) requires s.len() > 0 ensures after_all(v, n, s).len() == s.len(), after_all(v, n, s).drop_last() =~= s.drop_last() decreases v, n
{ if n > 0 && n <= v@.len() { lemma_after_all(v, (n - 1) as nat, s); lemma_after(v@[n - 1], after_all(v, (n - 1) as nat, s)); } }
// the same for the statements of a body
pub open spec fn after_list(v: Seq<Statement>, n: int, s: Scope) -> Scope decreases n { if n <= 0 { s } else { after(v[n - 1], after_list(v, n - 1, s)) } }
pub open spec fn named_list(v: Seq<Statement>, n: int, f: Fns, t: Tpls, b: Buses, s: Scope) -> bool decreases n {
    if n <= 0 { true } else { named_list(v, n - 1, f, t, b, s) && named(v[n - 1], f, t, b, after_list(v, n - 1, s)) }
}
// parameters of a definition
pub open spec fn params(p: Seq<VString>, n: int) -> Set<VString> decreases n { if n <= 0 { Set::empty() } else { params(p, n - 1).insert(p[n - 1]) } }
pub open spec fn distinct(p: Seq<VString>, n: int) -> bool decreases n { if n <= 0 { true } else { distinct(p, n - 1) && !params(p, n - 1).contains(p[n - 1]) } }
pub open spec fn well_named(p: Seq<VString>, body: Seq<Statement>, f: Fns, t: Tpls, b: Buses) -> bool {
    distinct(p, p.len() as int) && named_list(body, body.len() as int, f, t, b, seq![params(p, p.len() as int)])
}
pub open spec fn ready_body(body: Seq<Statement>) -> bool { forall|i: int| 0 <= i < body.len() ==> ready(#[trigger] body[i]) }
%end
%fn symbol_in_environment ret=r
    ensures r == visible(env(*environment), *symbol)
%at start
proof { lemma_env(*environment); }
%loop 0
    forall|i: int| 0 <= i < it_0.pos() ==> !(#[trigger] env(*environment)[i]).contains(*symbol), env(*environment).len() == environment@.len(), forall|i: int| 0 <= i < environment@.len() ==> #[trigger] env(*environment)[i] == environment@[i]@,
%at before_return 0
assert(env(*environment)[it_0.pos() - 1].contains(*symbol));
%fn add_symbol_to_block ret=r
    requires old(environment)@.len() > 0
    ensures env(*final(environment)) == declare(env(*old(environment)), *symbol), r == !env(*old(environment)).last().contains(*symbol), final(environment)@.len() == old(environment)@.len()
%at start
let ghost e0 = *environment;
proof { lemma_env(e0); }
%at before_return 0
proof { assert(env(e0).last().insert(*symbol) =~= env(e0).last()); assert(env(e0) =~= declare(env(e0), *symbol)); }
%at end
proof { lemma_env(*environment); assert(env(*environment) =~= declare(env(e0), *symbol)); }
%fn treat_variable
    requires all_acc(*access, access@.len(), rdy_e()), meta.file_id is Some
    ensures final(reports)@.len() >= old(reports)@.len(),
        (final(reports)@.len() == old(reports)@.len()) == (visible(env(*environment), *name) && all_acc(*access, access@.len(), use_e(function_info@, template_info@, bus_info@, env(*environment))))
    decreases access
%loop 0
    reports@.len() >= old(reports)@.len(), all_acc(*access, access@.len(), rdy_e()), meta.file_id is Some,
    (reports@.len() == old(reports)@.len()) == (visible(env(*environment), *name) && all_acc(*access, it_0.pos() as nat, use_e(function_info@, template_info@, bus_info@, env(*environment)))),
%at loop_start 0
proof { lemma_all_acc(*access, access@.len(), rdy_e(), it_0.pos() - 1); }
%fn analyze_expression
    requires ready_e(*expression)
    ensures final(reports)@.len() >= old(reports)@.len(),
        (final(reports)@.len() == old(reports)@.len()) == all_e(*expression, use_e(function_info@, template_info@, bus_info@, env(*environment)))
    decreases expression
%loop 0
    reports@.len() >= old(reports)@.len(), ready_e(*expression), *expression matches Expression::Call { args: v, .. } && v == *args,
    use_e(function_info@, template_info@, bus_info@, env(*environment))(*expression),
    (reports@.len() == old(reports)@.len()) == all_es(*args, it_0.pos() as nat, use_e(function_info@, template_info@, bus_info@, env(*environment))),
%at loop_start 0
proof { lemma_all_es(*args, args@.len(), rdy_e(), it_0.pos() - 1); }
%loop 1
    reports@.len() >= old(reports)@.len(), ready_e(*expression), *expression matches Expression::ArrayInLine { values: v, .. } && v == *values,
    (reports@.len() == old(reports)@.len()) == all_es(*values, it_1.pos() as nat, use_e(function_info@, template_info@, bus_info@, env(*environment))),
%at loop_start 1
proof { lemma_all_es(*values, values@.len(), rdy_e(), it_1.pos() - 1); }
%loop 2
    reports@.len() >= old(reports)@.len(), ready_e(*expression), *expression matches Expression::BusCall { args: v, .. } && v == *args,
    use_e(function_info@, template_info@, bus_info@, env(*environment))(*expression),
    (reports@.len() == old(reports)@.len()) == all_es(*args, it_2.pos() as nat, use_e(function_info@, template_info@, bus_info@, env(*environment))),
%at loop_start 2
proof { lemma_all_es(*args, args@.len(), rdy_e(), it_2.pos() - 1); }
%fn analyze_statement
    requires ready(*stmt), old(environment)@.len() > 0
    ensures final(reports)@.len() >= old(reports)@.len(), final(environment)@.len() == old(environment)@.len(),
        env(*final(environment)) == after(*stmt, env(*old(environment))),
        (final(reports)@.len() == old(reports)@.len()) == named(*stmt, function_info@, template_info@, bus_info@, env(*old(environment)))
    decreases stmt
%at start
let ghost stmt_0 = stmt;
let ghost env_0 = env(*environment);
proof { lemma_env(*environment); lemma_after(*stmt, env_0); }
%loop 0
    reports@.len() >= old(reports)@.len(), ready(*stmt_0), *stmt_0 matches Statement::InitializationBlock { initializations: v, .. } && v == *initializations, environment@.len() > 0,
    env(*environment) == after_all(*initializations, it_0.pos() as nat, env_0), env(*environment).len() == environment@.len(),
    (reports@.len() == old(reports)@.len()) == all_named(*initializations, it_0.pos() as nat, function_info@, template_info@, bus_info@, env_0),
    env_0.len() > 0, env_0.len() == environment@.len(),
%at loop_start 0
proof { lemma_all_ss(*initializations, initializations@.len(), rdy_s(), rdy_e(), it_0.pos() - 1); }
%loop 1
    reports@.len() >= old(reports)@.len(), ready(*stmt_0), *stmt_0 matches Statement::Declaration { dimensions: v, .. } && v == *dimensions, environment@.len() > 0,
    env(*environment) == env_0, env_0.len() == environment@.len(),
    (reports@.len() == old(reports)@.len()) == all_es(*dimensions, it_1.pos() as nat, use_e(function_info@, template_info@, bus_info@, env_0)),
%at loop_start 1
proof { lemma_all_es(*dimensions, dimensions@.len(), rdy_e(), it_1.pos() - 1); }
%at pre_loop 2
let ghost r2 = reports@.len();
%loop 2
    reports@.len() >= r2, (reports@.len() == r2) == (forall|i: int| 0 <= i < it_2.pos() ==> !bus.fields@.contains_key(#[trigger] tags@[i])),
%loop 3
    reports@.len() >= old(reports)@.len(), ready(*stmt_0), *stmt_0 matches Statement::LogCall { args: v, .. } && v == *args, environment@.len() > 0,
    env(*environment) == env_0, env_0.len() == environment@.len(),
    (reports@.len() == old(reports)@.len()) == all_log(*args, it_3.pos() as nat, use_e(function_info@, template_info@, bus_info@, env_0)),
%at loop_start 3
proof { lemma_all_log(*args, args@.len(), rdy_e(), it_3.pos() - 1); }
%loop 4
    reports@.len() >= old(reports)@.len(), ready(*stmt_0), *stmt_0 matches Statement::Block { stmts: v, .. } && v == *stmts, environment@.len() > 0,
    env(*environment) == after_all(*stmts, it_4.pos() as nat, inner), env(*environment).len() == environment@.len(),
    (reports@.len() == old(reports)@.len()) == all_named(*stmts, it_4.pos() as nat, function_info@, template_info@, bus_info@, inner),
    inner.len() > 0, inner.len() == environment@.len(),
%at loop_start 4
proof { lemma_all_ss(*stmts, stmts@.len(), rdy_s(), rdy_e(), it_4.pos() - 1); }
%at pre_loop 4
let ghost inner = env(*environment);
proof { lemma_env(*environment); assert(inner =~= env_0.push(Set::empty())); }
%at after_loop 4
proof { lemma_env(*environment); lemma_after_all(*stmts, stmts@.len(), inner); assert(inner.drop_last() =~= env_0); assert(env(*environment).drop_last() =~= env_0); }
%at end
proof { lemma_env(*environment); assert(env(*environment) =~= after(*stmt_0, env_0)); }
%fn analyze_symbols ret=r
    requires ready_body(body@)
    ensures r is Ok == well_named(params_names@, body@, function_info@, template_info@, bus_info@), r matches Err(e) ==> e@.len() > 0
%at pre_loop 0
proof { lemma_env(environment); assert(env(environment) =~= seq![params(params_names@, 0)]); }
%loop 0
    environment@.len() == 1, env(environment) =~= seq![params(params_names@, it_0.pos())], param_name_collision == !distinct(params_names@, it_0.pos()), reports@.len() == 0,
%at pre_loop 1
let ghost s0 = env(environment);
proof { lemma_env(environment); assert(s0 =~= seq![params(params_names@, params_names@.len() as int)]); }
%loop 1
    ready_body(body@), environment@.len() == 1, env(environment) == after_list(body@, it_1.pos(), s0),
    (reports@.len() == 0) == (distinct(params_names@, params_names@.len() as int) && named_list(body@, it_1.pos(), function_info@, template_info@, bus_info@, s0)),
%verbatim
pub open spec fn tpl_named(a: ProgramArchive) -> spec_fn(TemplateData) -> bool { |d: TemplateData| d.body matches Statement::Block { stmts: v, .. } && well_named(d.name_of_params@, v@, a.functions@, a.templates@, a.buses@) }
pub open spec fn fn_named(a: ProgramArchive) -> spec_fn(FunctionData) -> bool { |d: FunctionData| d.body matches Statement::Block { stmts: v, .. } && well_named(d.name_of_params@, v@, a.functions@, a.templates@, a.buses@) }
pub open spec fn bus_named(a: ProgramArchive) -> spec_fn(BusData) -> bool { |d: BusData| d.body matches Statement::Block { stmts: v, .. } && well_named(d.name_of_params@, v@, a.functions@, a.templates@, a.buses@) }
// the main component is a call with the right number of arguments, its public signals are inputs
pub open spec fn main_named(a: ProgramArchive) -> bool {
    &&& all_e(a.initial_template_call, use_e(a.functions@, a.templates@, a.buses@, Seq::empty()))
    &&& match a.initial_template_call { Expression::Call { id, .. } => a.templates@.contains_key(id) ==> forall|i: int| 0 <= i < a.public_inputs@.len() ==> a.templates@[id].input_wires@.contains_key(#[trigger] a.public_inputs@[i]), _ => true }
}
pub open spec fn all_names(a: ProgramArchive) -> bool { main_named(a) && all_vals(a.templates@, tpl_named(a)) && all_vals(a.functions@, fn_named(a)) && all_vals(a.buses@, bus_named(a)) }
broadcast use {axiom_key, axiom_key_view};
pub open spec fn all_pairs<K, V>(s: Seq<(&K, &V)>, n: int, p: spec_fn(V) -> bool) -> bool { forall|i: int| 0 <= i < n ==> p(*(#[trigger] s[i]).1) }
pub proof fn lemma_pairs<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>, p: spec_fn(V) -> bool) requires mapseq_ref(s, m) ensures all_vals(m, p) == all_pairs(s, s.len() as int, p)
{
    let ks = Seq::new(s.len(), |i: int| *s[i].0);
    if all_vals(m, p) { assert forall|i: int| 0 <= i < s.len() implies p(*(#[trigger] s[i]).1) by { assert(m.contains_key(*s[i].0)); } }
    if all_pairs(s, s.len() as int, p) {
        assert forall|k: K| #[trigger] m.contains_key(k) implies p(m[k]) by {
            lemma_pair_of(s, m, k);
            let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k; assert(p(*s[i].1));
        }
    }
}
pub proof fn lemma_pair_of<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>, k: K) requires mapseq_ref(s, m), m.contains_key(k) ensures exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
{
    assert(m.dom().contains(k));
    let ks = Seq::new(s.len(), |i: int| *s[i].0);
    assert(ks.to_set().contains(k));
    let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k;
    assert(*s[j].0 == k);
}
pub open spec fn inst_named(a: ProgramArchive, p: Seq<VString>, b: Seq<Statement>) -> bool { well_named(p, b, a.functions@, a.templates@, a.buses@) }
pub open spec fn insts_named(s: Seq<(FileID, FileLocation, &Vec<VString>, &Vec<Statement>)>, n: int, a: ProgramArchive) -> bool { forall|i: int| 0 <= i < n ==> inst_named(a, (#[trigger] s[i]).2@, s[i].3@) }
pub open spec fn insts_ready(s: Seq<(FileID, FileLocation, &Vec<VString>, &Vec<Statement>)>) -> bool { forall|i: int| 0 <= i < s.len() ==> ready_body((#[trigger] s[i]).3@) }
pub proof fn lemma_insts_push(s: Seq<(FileID, FileLocation, &Vec<VString>, &Vec<Statement>)>, x: (FileID, FileLocation, &Vec<VString>, &Vec<Statement>), a: ProgramArchive)
    ensures insts_named(s.push(x), s.len() as int + 1, a) == (insts_named(s, s.len() as int, a) && inst_named(a, x.2@, x.3@)), insts_ready(s.push(x)) == (insts_ready(s) && ready_body(x.3@))
{
    let t = s.push(x);
    assert(t[s.len() as int] == x);
    assert forall|i: int| 0 <= i < s.len() implies s[i] == #[trigger] t[i] by {}
    if insts_named(t, s.len() as int + 1, a) { assert forall|i: int| 0 <= i < s.len() implies inst_named(a, (#[trigger] s[i]).2@, s[i].3@) by { assert(t[i] == s[i]); } }
    if insts_ready(t) { assert forall|i: int| 0 <= i < s.len() implies ready_body((#[trigger] s[i]).3@) by { assert(t[i] == s[i]); } }
}
pub proof fn lemma_ready_body(s: Statement) requires good_body(s) ensures match s { Statement::Block { stmts, .. } => ready_body(stmts@), _ => true }
{
    match s { Statement::Block { stmts, .. } => {
        assert forall|i: int| 0 <= i < stmts@.len() implies ready(#[trigger] stmts@[i]) by { lemma_all_ss(stmts, stmts@.len(), rdy_s(), rdy_e(), i); }
    } _ => {} }
}
%end
%fn analyze_main ret=r
    requires arch_ok(*program)
    ensures r is Ok == main_named(*program), r matches Err(e) ==> e@.len() > 0
%loop 0
    (reports@.len() == 0) == (forall|i: int| 0 <= i < it_0.pos() ==> inputs@.contains_key(#[trigger] program.public_inputs@[i])),
%at after_let environment 0
proof { lemma_env(environment); assert(env(environment) =~= Seq::<Set<VString>>::empty()); }
%fn check_naming_correctness ret=r
    requires arch_ok(*program_archive)
    ensures r is Ok == all_names(*program_archive), r matches Err(e) ==> e@.len() > 0
%loop 0
    arch_ok(*program_archive), insts_ready(instances@), it_0.pos() >= 0, mapseq_ref(it_0.items(), program_archive.templates@),
    insts_named(instances@, instances@.len() as int, *program_archive) == (prev0 && all_pairs(it_0.items(), it_0.pos(), tpl_named(*program_archive))),
%at pre_loop 0
let ghost prev0 = insts_named(instances@, instances@.len() as int, *program_archive);
%at loop_start 0
let ghost i0 = instances@;
proof { assert(program_archive.templates@.contains_key(*it_0.items()[it_0.pos() - 1].0)); lemma_ready_body(data.body); }
%at loop_end 0
proof { lemma_insts_push(i0, instances@.last(), *program_archive); assert(instances@ =~= i0.push(instances@.last())); }
%at after_loop 0
proof { lemma_pairs(it_0.items(), program_archive.templates@, tpl_named(*program_archive)); }
%loop 1
    arch_ok(*program_archive), insts_ready(instances@), it_1.pos() >= 0, mapseq_ref(it_1.items(), program_archive.functions@),
    insts_named(instances@, instances@.len() as int, *program_archive) == (prev1 && all_pairs(it_1.items(), it_1.pos(), fn_named(*program_archive))),
%at pre_loop 1
let ghost prev1 = insts_named(instances@, instances@.len() as int, *program_archive);
%at loop_start 1
let ghost i1 = instances@;
proof { assert(program_archive.functions@.contains_key(*it_1.items()[it_1.pos() - 1].0)); lemma_ready_body(data.body); }
%at loop_end 1
proof { lemma_insts_push(i1, instances@.last(), *program_archive); assert(instances@ =~= i1.push(instances@.last())); }
%at after_loop 1
proof { lemma_pairs(it_1.items(), program_archive.functions@, fn_named(*program_archive)); }
%loop 2
    arch_ok(*program_archive), insts_ready(instances@), it_2.pos() >= 0, mapseq_ref(it_2.items(), program_archive.buses@),
    insts_named(instances@, instances@.len() as int, *program_archive) == (prev2 && all_pairs(it_2.items(), it_2.pos(), bus_named(*program_archive))),
%at pre_loop 2
let ghost prev2 = insts_named(instances@, instances@.len() as int, *program_archive);
%at loop_start 2
let ghost i2 = instances@;
proof { assert(program_archive.buses@.contains_key(*it_2.items()[it_2.pos() - 1].0)); lemma_ready_body(data.body); }
%at loop_end 2
proof { lemma_insts_push(i2, instances@.last(), *program_archive); assert(instances@ =~= i2.push(instances@.last())); }
%at after_loop 2
proof { lemma_pairs(it_2.items(), program_archive.buses@, bus_named(*program_archive)); }
%at pre_loop 3
let ghost insts = instances@;
%loop 3
    it_3.items() == insts, insts_ready(insts), (reports@.len() == 0) == (main_named(*program_archive) && insts_named(insts, it_3.pos(), *program_archive)),
    *function_info == program_archive.functions, *template_info == program_archive.templates, *bus_info == program_archive.buses,
%at loop_start 3
proof { assert(insts[it_3.pos() - 1].3@ == body@); assert(insts[it_3.pos() - 1].2@ == params_names@); assert(inst_named(*program_archive, params_names@, body@) == well_named(params_names@, body@, function_info@, template_info@, bus_info@)); }

%mod check
%source type_analysis/src/check_types.rs
%verbatim
use super::ast::*;
use super::data::*;
use super::names::*;
use super::paths::*;
use super::returns::*;
use super::signals::*;
use super::functions::{fn_ok, free_of_template_elements};
use super::buses::{bus_ok, free_of_invalid_statements};
use super::gates::*;
broadcast use {axiom_key, axiom_key_view};
impl Clone for ProgramArchive { #[verifier::external_body] fn clone(&self) -> (r: ProgramArchive) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn type_check(a: &ProgramArchive) -> (r: Result<OutInfo, ReportCollection>) { unimplemented!() }
#[verifier::external_body]
pub fn unknown_known_analysis(name: &str, a: &ProgramArchive) -> (r: Result<(), ReportCollection>) ensures r matches Err(e) ==> e@.len() > 0 { unimplemented!() }
pub open spec fn tpl_p() -> spec_fn(TemplateData) -> bool { |d: TemplateData| (d.is_extern_c ==> d.is_custom_gate) && free_ret(d.body) && loops_clear(d.body) }
pub open spec fn fun_p(names: Set<VString>) -> spec_fn(FunctionData) -> bool { |d: FunctionData| fn_ok(d.body, names) && !falls(d.body) }
pub open spec fn bus_p(names: Set<VString>) -> spec_fn(BusData) -> bool { |d: BusData| bus_ok(d.body, names) }
pub open spec fn gate_p() -> spec_fn(TemplateData) -> bool { |d: TemplateData| d.is_custom_gate ==> gate_ok(d.body) }
// the static rules a program has to obey
pub open spec fn rules(a: ProgramArchive) -> bool {
    all_names(a) && all_vals(a.templates@, tpl_p()) && all_vals(a.functions@, fun_p(a.functions@.dom())) && all_vals(a.buses@, bus_p(a.functions@.dom()))
}
%end
%source type_analysis/src/analyzers/type_check.rs
%item OutInfo
%source type_analysis/src/check_types.rs
%fn program_level_analyses
    requires arch_ok(*program_archive)
    ensures final(reports)@.len() >= old(reports)@.len(), (final(reports)@.len() == old(reports)@.len()) == all_names(*program_archive)
%fn template_level_analyses
    requires arch_ok(*program_archive)
    ensures final(reports)@.len() >= old(reports)@.len(), (final(reports)@.len() == old(reports)@.len()) == all_vals(program_archive.templates@, tpl_p())
%loop 0
    arch_ok(*program_archive), valseq_ref(it_0.items(), program_archive.templates@), reports@.len() >= old(reports)@.len(), it_0.pos() >= 0,
    (reports@.len() == old(reports)@.len()) == all_items(it_0.items(), it_0.pos(), tpl_p()),
%at loop_start 0
proof { lemma_val_of(it_0.items(), program_archive.templates@, it_0.pos() - 1); }
%at after_loop 0
proof { lemma_vals(it_0.items(), program_archive.templates@, tpl_p()); }
%fn function_level_analyses
    requires arch_ok(*program_archive)
    ensures final(reports)@.len() >= old(reports)@.len(), (final(reports)@.len() == old(reports)@.len()) == all_vals(program_archive.functions@, fun_p(program_archive.functions@.dom()))
%loop 0
    arch_ok(*program_archive), valseq_ref(it_0.items(), program_archive.functions@), reports@.len() >= old(reports)@.len(), it_0.pos() >= 0,
    (reports@.len() == old(reports)@.len()) == all_items(it_0.items(), it_0.pos(), fun_p(program_archive.functions@.dom())),
%at loop_start 0
proof { lemma_val_of(it_0.items(), program_archive.functions@, it_0.pos() - 1); }
%at after_loop 0
proof { lemma_vals(it_0.items(), program_archive.functions@, fun_p(program_archive.functions@.dom())); }
%fn bus_level_analyses
    requires arch_ok(*program_archive)
    ensures final(reports)@.len() >= old(reports)@.len(), (final(reports)@.len() == old(reports)@.len()) == all_vals(program_archive.buses@, bus_p(program_archive.functions@.dom()))
%loop 0
    arch_ok(*program_archive), valseq_ref(it_0.items(), program_archive.buses@), reports@.len() >= old(reports)@.len(), it_0.pos() >= 0,
    (reports@.len() == old(reports)@.len()) == all_items(it_0.items(), it_0.pos(), bus_p(program_archive.functions@.dom())),
%at loop_start 0
proof { lemma_val_of(it_0.items(), program_archive.buses@, it_0.pos() - 1); }
%at after_loop 0
proof { lemma_vals(it_0.items(), program_archive.buses@, bus_p(program_archive.functions@.dom())); }
%verbatim
pub proof fn lemma_val_of<K, V>(s: Seq<&V>, m: Map<K, V>, i: int) requires valseq_ref(s, m), 0 <= i < s.len() ensures exists|k: K| #[trigger] m.contains_key(k) && m[k] == *s[i]
{
    reveal(valseq_ref);
    let ks = choose|ks: Seq<K>| #[trigger] keyseq(ks, m.dom()) && ks.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] ks[i]) && m[ks[i]] == *s[i];
    assert(m.contains_key(ks[i]));
}
%end
%fn template_level_decorators assume
    requires arch_ok(*old(program_archive))
    ensures arch_ok(*final(program_archive))
%fn function_level_decorators assume
    requires arch_ok(*old(program_archive))
    ensures arch_ok(*final(program_archive))
%fn bus_level_decorators assume
    requires arch_ok(*old(program_archive))
    ensures arch_ok(*final(program_archive))
%fn semantic_analyses
    requires arch_ok(*program_archive)
    ensures final(errors)@.len() >= old(errors)@.len(), final(errors)@.len() == old(errors)@.len() ==> all_vals(program_archive.templates@, gate_p())
%loop 0
    errors@.len() >= old(errors)@.len(),
%at pre_loop 1
let ghost e1 = errors@.len();
%loop 1
    arch_ok(*program_archive), keyseq_ref(it_1.items(), program_archive.templates@.dom()), errors@.len() >= e1,
    errors@.len() == e1 ==> forall|i: int| 0 <= i < it_1.pos() ==> gate_p()(program_archive.templates@[*#[trigger] it_1.items()[i]]),
%at loop_start 1
proof { lemma_key_of(it_1.items(), program_archive.templates@, it_1.pos() - 1); }
%at after_loop 1
proof { if errors@.len() == e1 { lemma_gates(it_1.items(), program_archive.templates@); } }
%verbatim
pub proof fn lemma_key_of<K, V>(s: Seq<&K>, m: Map<K, V>, i: int) requires keyseq_ref(s, m.dom()), 0 <= i < s.len() ensures m.contains_key(*s[i])
{ assert(derefs(s).to_set().contains(derefs(s)[i])); }
pub proof fn lemma_gates(s: Seq<&VString>, m: Map<VString, TemplateData>)
    requires keyseq_ref(s, m.dom()), forall|i: int| 0 <= i < s.len() ==> gate_p()(m[*#[trigger] s[i]]) ensures all_vals(m, gate_p())
{
    assert forall|k: VString| #[trigger] m.contains_key(k) implies gate_p()(m[k]) by {
        assert(derefs(s).to_set().contains(k)); let i = choose|i: int| 0 <= i < derefs(s).len() && derefs(s)[i] == k; assert(*s[i] == k);
    }
}
%end
%fn check_types ret=r
    requires arch_ok(*old(program_archive))
    ensures r is Ok ==> rules(*old(program_archive)), r is Ok ==> all_vals(final(program_archive).templates@, gate_p())
%loop 0
    arch_ok(*program_archive),
%loop 1
    arch_ok(*program_archive),
%loop 2
    arch_ok(*program_archive),
