%use ops.rs
%use bigint.rs
%use std.rs
%use iter.rs
%use maps.rs
%use vstring.rs
%path String::new=VString::new
%path String::from=vstring_from
%rename_method to_string=vto_string
%rename_method as_ref=vas_ref
%drop_macro debug_assert
%import ast.fns assume=rules
%verbatim
impl std::ops::Deref for VString { type Target = str;
    #[verifier::external_body] fn deref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
%end
%import environment.vspec assume=environment
%mod data
%verbatim
use super::ast::*;
#[verifier::external_body]
pub struct WireData { x: u8 }
pub type WireInfo = HashMap<VString, WireData>;
pub type WireDeclarationOrder = Vec<(VString, usize)>;
#[verifier::external_body]
pub struct FileLibrary { x: u8 }
%end
%source program_structure/src/program_library/template_data.rs
%item TemplateInfo
%item TemplateData
%fn TemplateData::get_file_id ret=r
    ensures r == self.file_id
%fn TemplateData::get_body ret=r
    ensures *r == self.body
%fn TemplateData::get_name_of_params ret=r
    ensures *r == self.name_of_params
%source program_structure/src/program_library/function_data.rs
%item FunctionInfo
%item FunctionData
%source program_structure/src/program_library/bus_data.rs
%item BusInfo
%item BusData
%fn BusData::get_file_id ret=r
    ensures r == self.file_id
%fn BusData::get_body ret=r
    ensures *r == self.body
%fn BusData::get_name_of_params ret=r
    ensures *r == self.name_of_params
%source program_structure/src/program_library/program_archive.rs
%item ProgramArchive
%fn ProgramArchive::contains_template ret=r
    ensures r == self.templates@.contains_key(key(template_name@))
%fn ProgramArchive::get_template_data ret=r
    requires self.templates@.contains_key(key(template_name@))
    ensures *r == self.templates@[key(template_name@)]
%fn ProgramArchive::contains_bus ret=r
    ensures r == self.buses@.contains_key(key(bus_name@))
%fn ProgramArchive::get_bus_data ret=r
    requires self.buses@.contains_key(key(bus_name@))
    ensures *r == self.buses@[key(bus_name@)]

%mod known
%ops on
%source program_structure/src/utils/environment.rs
%item FullEnvironment
%item CircomEnvironment
%source type_analysis/src/analyzers/unknown_known_analysis.rs
%verbatim
use super::ast::*;
use super::data::*;
use super::environment::*;
pub use self::Tag::*;
pub use super::ast::ReportCode::{UnknownTemplateAssignment, UnknownBus, UnknownDimension, UnknownTemplate, NonValidTagAssignment, NonQuadratic, UnreachableConstraints, UnreachableTags, UnreachableSignals};
broadcast use axiom_key;
%end
%item Tag attr=derive(Clone,Copy)
%item Environment
%item EntryInformation
%item ExitInformation
%verbatim
impl VEq<Tag> for Tag {
    open spec fn veq_spec(&self, o: &Tag) -> bool { *self == *o }
    #[verifier::external_body] fn veq(&self, o: &Tag) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vne(&self, o: &Tag) -> (b: bool) { unimplemented!() }
}
impl VEq<(Tag, bool)> for (Tag, bool) {
    open spec fn veq_spec(&self, o: &(Tag, bool)) -> bool { *self == *o }
    #[verifier::external_body] fn veq(&self, o: &(Tag, bool)) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vne(&self, o: &(Tag, bool)) -> (b: bool) { unimplemented!() }
}
impl VEq<AssignOp> for AssignOp {
    open spec fn veq_spec(&self, o: &AssignOp) -> bool { *self == *o }
    #[verifier::external_body] fn veq(&self, o: &AssignOp) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vne(&self, o: &AssignOp) -> (b: bool) { unimplemented!() }
}
// the derived order: Known < Unknown, pairs lexicographically
pub open spec fn tmax(a: Tag, b: Tag) -> Tag { if a is Unknown || b is Unknown { Tag::Unknown } else { Tag::Known } }
pub open spec fn height(v: (Tag, bool)) -> int { (if v.0 is Unknown { 2int } else { 0 }) + (if v.1 { 1int } else { 0 }) }
pub open spec fn vmax(a: (Tag, bool), b: (Tag, bool)) -> (Tag, bool) { if height(b) >= height(a) { b } else { a } }
pub trait VMax: Sized { spec fn maxof(a: Self, b: Self) -> Self; fn domax(a: Self, b: Self) -> (r: Self) ensures r == Self::maxof(a, b); }
impl VMax for Tag { open spec fn maxof(a: Tag, b: Tag) -> Tag { tmax(a, b) } #[verifier::external_body] fn domax(a: Tag, b: Tag) -> (r: Tag) { unimplemented!() } }
impl VMax for (Tag, bool) { open spec fn maxof(a: (Tag, bool), b: (Tag, bool)) -> (Tag, bool) { vmax(a, b) } #[verifier::external_body] fn domax(a: (Tag, bool), b: (Tag, bool)) -> (r: (Tag, bool)) { unimplemented!() } }
pub fn max<T: VMax>(a: T, b: T) -> (r: T) ensures r == T::maxof(a, b) { T::domax(a, b) }
// the closure as the function that combines two values
pub open spec fn takes_max<F: Fn((Tag, bool), (Tag, bool)) -> (Tag, bool)>(f: F) -> bool {
    &&& forall|a: (Tag, bool), b: (Tag, bool)| #[trigger] f.requires((a, b))
    &&& forall|a: (Tag, bool), b: (Tag, bool), r: (Tag, bool)| #[trigger] f.ensures((a, b), r) ==> r == vmax(a, b)
}
#[verifier::external_body]
pub fn join_of<F: Fn((Tag, bool), (Tag, bool)) -> (Tag, bool)>(f: F) -> (r: Join<(Tag, bool)>) ensures forall|a: (Tag, bool), b: (Tag, bool)| f.ensures((a, b), #[trigger] r.of(a, b)) { unimplemented!() }
pub fn env_merge<F: Fn((Tag, bool), (Tag, bool)) -> (Tag, bool)>(x: Environment, y: Environment, f: F) -> (r: Environment)
    requires depth(x) == depth(y), takes_max(f) ensures met(x, y, r)
{
    let j = join_of(f);
    let r = Environment::merge(x, y, j);
    proof {
        assert forall|a: (Tag, bool), b: (Tag, bool)| #[trigger] j.of(a, b) == vmax(a, b) by { assert(f.ensures((a, b), j.of(a, b))); }
        assert forall|i: int| 0 <= i < depth(x) implies #[trigger] at(r, i) == joined(at(x, i), at(y, i), j) by { assert(r.variables@[i].variables@ == joined(x.variables@[i].variables@, y.variables@[i].variables@, j)); }
    }
    r
}
#[verifier::external_body]
pub fn environment_clone(e: &Environment) -> (r: Environment) ensures r == *e { unimplemented!() }
// the `_or_break` accessors panic on a name that is not bound: what follows a call knows that it is
#[verifier::external_body]
pub fn bound_variable<'a>(e: &'a Environment, n: &str) -> (r: &'a (Tag, bool)) ensures e.lookup(key(n@)) is Some, *r == e.lookup(key(n@))->0 { unimplemented!() }
#[verifier::external_body]
pub fn bound_component<'a>(e: &'a Environment, n: &str) -> (r: &'a Tag) ensures e.components@.contains_key(key(n@)), *r == e.components@[key(n@)] { unimplemented!() }
#[verifier::external_body]
pub fn bound_mut<'a>(e: &'a mut Environment, n: &str) -> (r: &'a mut (Tag, bool))
    ensures old(e).lookup(key(n@)) is Some, *r == old(e).lookup(key(n@))->0, put(*old(e), *final(e), key(n@), *final(r)) { unimplemented!() }
#[verifier::external_body]
pub fn reduces_to(m: &Meta) -> (r: &TypeReduction) ensures *r == reduced(*m) { unimplemented!() }
#[verifier::external_body]
pub fn out_of_place() -> ! ensures false { unimplemented!() }
pub open spec fn reduced(m: Meta) -> TypeReduction { m.type_knowledge.reduces_to->0 }

// ---- the environment, block by block
pub open spec fn at(e: Environment, i: int) -> Map<VString, (Tag, bool)> { e.variables@[i].variables@ }
pub open spec fn depth(e: Environment) -> nat { e.variables@.len() }
pub open spec fn homed(e: Environment, k: VString) -> int { home(e.variables@, k) }
pub open spec fn same(a: Environment, b: Environment) -> bool {
    &&& a.components@ == b.components@ && depth(a) == depth(b)
    &&& forall|i: int| 0 <= i < depth(a) ==> #[trigger] at(a, i) == at(b, i)
}
// the innermost binding of k holds v afterwards
pub open spec fn put(a: Environment, b: Environment, k: VString, v: (Tag, bool)) -> bool {
    &&& a.components@ == b.components@ && depth(a) == depth(b) && homed(a, k) >= 0
    &&& forall|i: int| 0 <= i < depth(a) ==> #[trigger] at(b, i) == if i == homed(a, k) { at(a, i).insert(k, v) } else { at(a, i) }
}
pub open spec fn bound_new(a: Environment, b: Environment, k: VString, v: (Tag, bool)) -> bool {
    &&& a.components@ == b.components@ && depth(a) == depth(b) && depth(a) > 0
    &&& forall|i: int| 0 <= i < depth(a) ==> #[trigger] at(b, i) == if i == depth(a) - 1 { at(a, i).insert(k, v) } else { at(a, i) }
}
pub open spec fn opened(a: Environment, b: Environment) -> bool {
    &&& a.components@ == b.components@ && depth(b) == depth(a) + 1 && at(b, depth(a) as int) == Map::<VString, (Tag, bool)>::empty()
    &&& forall|i: int| 0 <= i < depth(a) ==> #[trigger] at(a, i) == at(b, i)
}
// only names in m may have changed, nothing has become unbound
pub open spec fn frame(a: Environment, b: Environment, m: Set<VString>) -> bool {
    &&& depth(a) == depth(b)
    &&& forall|i: int, k: VString| 0 <= i < depth(a) && #[trigger] at(a, i).contains_key(k) ==> at(b, i).contains_key(k)
    &&& forall|i: int, k: VString| 0 <= i < depth(a) && #[trigger] at(b, i).contains_key(k) && !m.contains(k) ==> at(a, i).contains_key(k) && at(b, i)[k] == at(a, i)[k]
}
pub open spec fn doms(a: Environment, b: Environment) -> bool {
    &&& depth(a) == depth(b)
    &&& forall|i: int, k: VString| 0 <= i < depth(a) ==> #[trigger] at(a, i).contains_key(k) == #[trigger] at(b, i).contains_key(k)
}
// after a condition that is unknown: what was assigned is unknown
pub open spec fn raised(a: Environment, b: Environment, m: Set<VString>, unknown: bool) -> bool {
    &&& doms(a, b) && a.components@ == b.components@
    &&& forall|i: int, k: VString| 0 <= i < depth(a) && #[trigger] at(a, i).contains_key(k) ==> at(b, i)[k] == if unknown && m.contains(k) && homed(a, k) == i { (Tag::Unknown, at(a, i)[k].1) } else { at(a, i)[k] }
}
// where two paths meet
pub open spec fn met(x: Environment, y: Environment, b: Environment) -> bool {
    &&& depth(x) == depth(y) && depth(b) == depth(x) && b.components@ == over(x.components@, y.components@)
    &&& forall|i: int, k: VString| 0 <= i < depth(x) ==> #[trigger] at(b, i).contains_key(k) == (at(x, i).contains_key(k) || at(y, i).contains_key(k))
    &&& forall|i: int, k: VString| 0 <= i < depth(x) && #[trigger] at(b, i).contains_key(k) ==> at(b, i)[k] ==
        if at(x, i).contains_key(k) { if at(y, i).contains_key(k) { vmax(at(x, i)[k], at(y, i)[k]) } else { at(x, i)[k] } } else { at(y, i)[k] }
}
// the state after a pass of a loop that began in i and ended in x: for the names assigned, whatever is unknown in either
pub open spec fn widened(i: Environment, x: Environment, w: Environment, m: Set<VString>) -> bool {
    &&& doms(x, w) && x.components@ == w.components@
    &&& forall|j: int, k: VString| 0 <= j < depth(x) && #[trigger] at(x, j).contains_key(k) ==> at(w, j)[k] == if m.contains(k) && homed(x, k) == j && i.lookup(k) is Some { vmax(i.lookup(k)->0, at(x, j)[k]) } else { at(x, j)[k] }
}
pub open spec fn unsettled_at(i: Environment, x: Environment, k: VString) -> bool { i.lookup(k) is Some && x.lookup(k) is Some && i.lookup(k)->0 != x.lookup(k)->0 && (x.lookup(k)->0).0 is Unknown }
// the pass changed nothing to unknown
pub open spec fn settled(i: Environment, x: Environment, m: Set<VString>) -> bool { forall|k: VString| #[trigger] m.contains(k) ==> !unsettled_at(i, x, k) }
// b knows no more than a
pub open spec fn grown(a: Environment, b: Environment) -> bool {
    depth(a) == depth(b) && forall|k: VString| (#[trigger] a.lookup(k)) is Some ==> b.lookup(k) is Some && height(b.lookup(k)->0) >= height(a.lookup(k)->0)
}

// ---- what an expression's value may depend on
pub open spec fn tag_e(x: Expression, e: Environment) -> Tag decreases x {
    match x {
        Expression::Number(_, _) => Tag::Known,
        Expression::Variable { meta, name, .. } => match reduced(meta) {
            TypeReduction::Variable => { let v = e.lookup(name)->0; if v.1 { Tag::Known } else { v.0 } }
            TypeReduction::Signal => Tag::Unknown,
            TypeReduction::Bus(_) => Tag::Unknown,
            TypeReduction::Component(_) => e.components@[name],
            TypeReduction::Tag => Tag::Known,
        },
        Expression::ArrayInLine { values, .. } => tag_es(values, values@.len(), e),
        Expression::Call { args, .. } => tag_es(args, args@.len(), e),
        Expression::BusCall { args, .. } => tag_es(args, args@.len(), e),
        Expression::UniformArray { value, dimension, .. } => tmax(tag_e(*value, e), tag_e(*dimension, e)),
        Expression::InlineSwitchOp { cond, if_true, if_false, .. } => tmax(tag_e(*cond, e), tmax(tag_e(*if_true, e), tag_e(*if_false, e))),
        Expression::InfixOp { lhe, rhe, .. } => tmax(tag_e(*rhe, e), tag_e(*lhe, e)),
        Expression::PrefixOp { rhe, .. } => tag_e(*rhe, e),
        Expression::ParallelOp { rhe, .. } => tag_e(*rhe, e),
        _ => arbitrary(),
    }
}
// unknown if one of the first n is
pub open spec fn tag_es(v: Vec<Expression>, n: nat, e: Environment) -> Tag decreases v, n {
    if n == 0 || n > v@.len() { Tag::Known } else { tmax(tag_es(v, (n - 1) as nat, e), tag_e(v@[n - 1], e)) }
}
pub open spec fn tag_acc(v: Vec<Access>, n: nat, e: Environment) -> Tag decreases v, n {
    if n == 0 || n > v@.len() { Tag::Known } else { tmax(tag_acc(v, (n - 1) as nat, e), match v@[n - 1] { Access::ArrayAccess(x) => tag_e(x, e), Access::ComponentAccess(_) => Tag::Known }) }
}
// some array in x is indexed by an unknown
pub open spec fn uidx(x: Expression, e: Environment) -> bool decreases x {
    match x {
        Expression::Number(_, _) => false,
        Expression::Variable { access, .. } => tag_acc(access, access@.len(), e) is Unknown,
        Expression::ArrayInLine { values, .. } => uidxs(values, values@.len(), e),
        Expression::Tuple { values, .. } => uidxs(values, values@.len(), e),
        Expression::Call { args, .. } => uidxs(args, args@.len(), e),
        Expression::BusCall { args, .. } => uidxs(args, args@.len(), e),
        Expression::UniformArray { value, dimension, .. } => uidx(*value, e) || uidx(*dimension, e),
        Expression::InlineSwitchOp { cond, if_true, if_false, .. } => uidx(*cond, e) || uidx(*if_true, e) || uidx(*if_false, e),
        Expression::InfixOp { lhe, rhe, .. } => uidx(*lhe, e) || uidx(*rhe, e),
        Expression::PrefixOp { rhe, .. } => uidx(*rhe, e),
        Expression::ParallelOp { rhe, .. } => uidx(*rhe, e),
        _ => arbitrary(),
    }
}
pub open spec fn uidxs(v: Vec<Expression>, n: nat, e: Environment) -> bool decreases v, n {
    if n == 0 || n > v@.len() { false } else { uidxs(v, (n - 1) as nat, e) || uidx(v@[n - 1], e) }
}

// ---- what a statement does that must not depend on an unknown condition
pub open spec fn declares(s: Statement) -> bool decreases s {
    match s {
        Statement::Declaration { xtype, .. } => !(xtype is Var),
        Statement::IfThenElse { if_case, else_case, .. } => declares(*if_case) || match else_case { Some(o) => declares(*o), None => false },
        Statement::While { stmt, .. } => declares(*stmt),
        Statement::Block { stmts, .. } => declares_all(stmts, stmts@.len()),
        Statement::InitializationBlock { initializations, .. } => declares_all(initializations, initializations@.len()),
        _ => false,
    }
}
pub open spec fn declares_all(v: Vec<Statement>, n: nat) -> bool decreases v, n { if n == 0 || n > v@.len() { false } else { declares_all(v, (n - 1) as nat) || declares(v@[n - 1]) } }
pub open spec fn constrains(s: Statement) -> bool decreases s {
    match s {
        Statement::ConstraintEquality { .. } => true,
        Statement::UnderscoreSubstitution { op, .. } => op is AssignConstraintSignal,
        Statement::Substitution { meta, op, .. } => match reduced(meta) {
            TypeReduction::Variable => false, TypeReduction::Tag => false, TypeReduction::Component(_) => true, _ => op is AssignConstraintSignal },
        Statement::IfThenElse { if_case, else_case, .. } => constrains(*if_case) || match else_case { Some(o) => constrains(*o), None => false },
        Statement::While { stmt, .. } => constrains(*stmt),
        Statement::Block { stmts, .. } => constrains_all(stmts, stmts@.len()),
        Statement::InitializationBlock { initializations, .. } => constrains_all(initializations, initializations@.len()),
        _ => false,
    }
}
pub open spec fn constrains_all(v: Vec<Statement>, n: nat) -> bool decreases v, n { if n == 0 || n > v@.len() { false } else { constrains_all(v, (n - 1) as nat) || constrains(v@[n - 1]) } }
pub open spec fn tags(s: Statement) -> bool decreases s {
    match s {
        Statement::Substitution { meta, .. } => reduced(meta) is Tag,
        Statement::IfThenElse { if_case, else_case, .. } => tags(*if_case) || match else_case { Some(o) => tags(*o), None => false },
        Statement::While { stmt, .. } => tags(*stmt),
        Statement::Block { stmts, .. } => tags_all(stmts, stmts@.len()),
        Statement::InitializationBlock { initializations, .. } => tags_all(initializations, initializations@.len()),
        _ => false,
    }
}
pub open spec fn tags_all(v: Vec<Statement>, n: nat) -> bool decreases v, n { if n == 0 || n > v@.len() { false } else { tags_all(v, (n - 1) as nat) || tags(v@[n - 1]) } }
// the variables s declares or assigns
pub open spec fn assigns(s: Statement) -> Set<VString> decreases s {
    match s {
        Statement::Declaration { xtype, name, .. } => if xtype is Var { Set::empty().insert(name) } else { Set::empty() },
        Statement::Substitution { meta, var, .. } => if reduced(meta) is Variable { Set::empty().insert(var) } else { Set::empty() },
        Statement::IfThenElse { if_case, else_case, .. } => match else_case { Some(o) => assigns(*if_case).union(assigns(*o)), None => assigns(*if_case) },
        Statement::While { stmt, .. } => assigns(*stmt),
        Statement::Block { stmts, .. } => assigns_all(stmts, stmts@.len()),
        Statement::InitializationBlock { initializations, .. } => assigns_all(initializations, initializations@.len()),
        _ => Set::empty(),
    }
}
pub open spec fn assigns_all(v: Vec<Statement>, n: nat) -> Set<VString> decreases v, n { if n == 0 || n > v@.len() { Set::empty() } else { assigns_all(v, (n - 1) as nat).union(assigns(v@[n - 1])) } }
pub open spec fn decisive(s: Statement) -> bool { constrains(s) || tags(s) || declares(s) }

// ---- s takes what is known in a to b; ok: nothing that shapes the constraint system depends on an unknown
pub open spec fn declared(a: Environment, b: Environment, t: VariableType, name: VString, array: bool) -> bool {
    match t {
        VariableType::Var => bound_new(a, b, name, (Tag::Known, array)),
        VariableType::Component => a.variables == b.variables && b.components@ == a.components@.insert(name, Tag::Unknown),
        VariableType::AnonymousComponent => a.variables == b.variables && b.components@ == a.components@.insert(name, Tag::Unknown),
        _ => same(a, b),
    }
}
pub open spec fn assigned(a: Environment, b: Environment, name: VString, t: Tag) -> bool {
    let v = a.lookup(name)->0;
    a.lookup(name) is Some && put(a, b, name, (if !v.1 || v.0 is Known { t } else { v.0 }, v.1))
}
pub open spec fn flow(s: Statement, a: Environment, b: Environment, ok: bool) -> bool decreases s {
    match s {
        Statement::Declaration { xtype, name, dimensions, .. } => declared(a, b, xtype, name, dimensions@.len() > 0)
            && ok == (xtype is AnonymousComponent || tag_es(dimensions, dimensions@.len(), b) is Known),
        Statement::Substitution { meta, var, access, op, rhe } => {
            let i = tag_acc(access, access@.len(), a) is Known; let v = tag_e(rhe, a) is Known;
            match reduced(meta) {
                TypeReduction::Variable => assigned(a, b, var, if i && v { Tag::Known } else { Tag::Unknown }) && ok,
                TypeReduction::Component(_) => same(a, b) && ok == (i && v),
                TypeReduction::Tag => same(a, b) && ok == (i && v),
                TypeReduction::Bus(_) => same(a, b) && ok == ((op is AssignVar ==> v) && (op is AssignConstraintSignal ==> i && !uidx(rhe, a))),
                _ => same(a, b) && ok == if op is AssignConstraintSignal { i && !uidx(rhe, a) } else { a.components@.contains_key(var) ==> i },
            }
        }
        Statement::UnderscoreSubstitution { op, rhe, .. } => same(a, b) && ok == (op is AssignConstraintSignal ==> !uidx(rhe, a)),
        Statement::ConstraintEquality { lhe, rhe, .. } => same(a, b) && ok == (!uidx(lhe, a) && !uidx(rhe, a)),
        Statement::IfThenElse { cond, if_case, else_case, .. } => exists|x: Environment, y: Environment, m: Environment, p: bool, q: bool|
            #[trigger] branches(x, y, m, p, q) && flow(*if_case, a, x, p) && match else_case { Some(o) => flow(*o, a, y, q), None => same(a, y) && q }
            && met(x, y, m) && raised(m, b, assigns(s), tag_e(cond, a) is Unknown) && ok == (p && q && (tag_e(cond, a) is Unknown ==> !decisive(s))),
        Statement::While { cond, stmt, .. } => exists|i: Environment, x: Environment, w: Environment, p: bool|
            #[trigger] passes(i, x, w, p) && grown(a, i) && flow(*stmt, i, x, p) && settled(i, x, assigns(*stmt)) && widened(i, x, w, assigns(*stmt))
            && raised(w, b, assigns(*stmt), tag_e(cond, w) is Unknown) && ok == (p && (tag_e(cond, w) is Unknown ==> !decisive(s))),
        Statement::Block { stmts, .. } => exists|m: Environment, n: Environment| #[trigger] inside(m, n) && opened(a, m) && flows(stmts, stmts@.len(), m, n, ok) && opened_by(b, n),
        Statement::InitializationBlock { initializations, .. } => flows(initializations, initializations@.len(), a, b, ok),
        _ => same(a, b) && ok,
    }
}
// n is b with one more block
pub open spec fn opened_by(b: Environment, n: Environment) -> bool {
    b.components@ == n.components@ && depth(n) == depth(b) + 1 && forall|i: int| 0 <= i < depth(b) ==> #[trigger] at(b, i) == at(n, i)
}
pub open spec fn flows(v: Vec<Statement>, n: nat, a: Environment, b: Environment, ok: bool) -> bool decreases v, n {
    if n == 0 || n > v@.len() { same(a, b) && ok }
    else { exists|m: Environment, p: bool, q: bool| #[trigger] step(m, p, q) && flows(v, (n - 1) as nat, a, m, p) && flow(v@[n - 1], m, b, q) && ok == (p && q) }
}
pub open spec fn branches(x: Environment, y: Environment, m: Environment, p: bool, q: bool) -> bool { true }
pub open spec fn passes(i: Environment, x: Environment, w: Environment, p: bool) -> bool { true }
pub open spec fn inside(m: Environment, n: Environment) -> bool { true }
pub open spec fn step(m: Environment, p: bool, q: bool) -> bool { true }
pub proof fn lemma_tag_mono(v: Vec<Expression>, i: nat, n: nat, e: Environment) requires i <= n <= v@.len(), tag_es(v, i, e) is Unknown ensures tag_es(v, n, e) is Unknown decreases n { if i < n { lemma_tag_mono(v, i, (n - 1) as nat, e); } }
pub proof fn lemma_acc_mono(v: Vec<Access>, i: nat, n: nat, e: Environment) requires i <= n <= v@.len(), tag_acc(v, i, e) is Unknown ensures tag_acc(v, n, e) is Unknown decreases n { if i < n { lemma_acc_mono(v, i, (n - 1) as nat, e); } }
pub proof fn lemma_uidx_mono(v: Vec<Expression>, i: nat, n: nat, e: Environment) requires i <= n <= v@.len(), uidxs(v, i, e) ensures uidxs(v, n, e) decreases n { if i < n { lemma_uidx_mono(v, i, (n - 1) as nat, e); } }
impl Clone for ReportCode { #[verifier::external_body] fn clone(&self) -> (r: ReportCode) ensures r == *self { unimplemented!() } }
impl Copy for ReportCode {}
pub trait VAsRef { type T: ?Sized; spec fn refd(&self) -> &Self::T; fn vas_ref(&self) -> (r: &Self::T) ensures r == self.refd(); }
impl<U> VAsRef for Box<U> { type T = U; open spec fn refd(&self) -> &U { &**self } fn vas_ref(&self) -> (r: &U) { &**self } }
// the first n names of an iteration
pub open spec fn taken(s: Seq<&VString>, n: int) -> Set<VString> { derefs(s).take(n).to_set() }
pub proof fn lemma_taken(s: Seq<&VString>, d: Set<VString>, n: int) requires keyseq_ref(s, d), 0 < n <= s.len()
    ensures taken(s, n) == taken(s, n - 1).insert(*s[n - 1]), !taken(s, n - 1).contains(*s[n - 1]), d.contains(*s[n - 1])
{
    let q = derefs(s);
    assert(q.take(n) =~= q.take(n - 1).push(q[n - 1]));
    assert(taken(s, n) =~= taken(s, n - 1).insert(*s[n - 1])) by {
        assert forall|k: VString| taken(s, n).contains(k) == taken(s, n - 1).insert(*s[n - 1]).contains(k) by {
            if taken(s, n).contains(k) { let j = choose|j: int| 0 <= j < n && #[trigger] q.take(n)[j] == k; if j < n - 1 { assert(q.take(n - 1)[j] == k); } }
            if taken(s, n - 1).contains(k) { let j = choose|j: int| 0 <= j < n - 1 && #[trigger] q.take(n - 1)[j] == k; assert(q.take(n)[j] == k); }
            assert(q.take(n)[n - 1] == *s[n - 1]);
        }
    }
    assert(q.to_set().contains(q[n - 1]));
}
pub proof fn lemma_taken_all(s: Seq<&VString>, d: Set<VString>) requires keyseq_ref(s, d) ensures taken(s, s.len() as int) == d, taken(s, 0) == Set::<VString>::empty()
{ assert(derefs(s).take(s.len() as int) =~= derefs(s)); assert(taken(s, 0) =~= Set::<VString>::empty()); }
pub proof fn lemma_doms(a: Environment, b: Environment) requires doms(a, b)
    ensures forall|k: VString| #[trigger] homed(a, k) == homed(b, k), forall|k: VString| #[trigger] a.lookup(k) is Some == b.lookup(k) is Some
{
    assert forall|k: VString| #[trigger] homed(a, k) == homed(b, k) by {
        lemma_home(a.variables@, k);
        let h = homed(a, k);
        assert forall|i: int| h < i < depth(b) implies !(#[trigger] b.variables@[i]).variables@.contains_key(k) by { assert(!a.variables@[i].variables@.contains_key(k)); assert(at(a, i).contains_key(k) == at(b, i).contains_key(k)); }
        if h >= 0 { assert(at(a, h).contains_key(k) == at(b, h).contains_key(k)); }
        lemma_home_is(b.variables@, k, h);
    }
    assert forall|k: VString| #[trigger] a.lookup(k) is Some == b.lookup(k) is Some by { assert(homed(a, k) == homed(b, k)); }
}
// what is bound stays bound, what is not in m keeps its value
pub proof fn lemma_frame(a: Environment, b: Environment, m: Set<VString>) requires frame(a, b, m)
    ensures forall|k: VString| (#[trigger] a.lookup(k)) is Some ==> b.lookup(k) is Some, forall|k: VString| !m.contains(k) ==> #[trigger] a.lookup(k) == b.lookup(k)
{
    assert forall|k: VString| (#[trigger] a.lookup(k)) is Some implies b.lookup(k) is Some by { lemma_home(a.variables@, k); lemma_home(b.variables@, k); let h = homed(a, k); assert(at(a, h).contains_key(k)); assert(at(b, h).contains_key(k)); }
    assert forall|k: VString| !m.contains(k) implies #[trigger] a.lookup(k) == b.lookup(k) by {
        lemma_home(a.variables@, k); lemma_home(b.variables@, k);
        let h = homed(a, k); let g = homed(b, k);
        if h >= 0 { assert(at(a, h).contains_key(k)); assert(at(b, h).contains_key(k)); }
        if g >= 0 { assert(at(b, g).contains_key(k)); assert(at(a, g).contains_key(k)); }
    }
}

pub proof fn lemma_frames(a: Environment, b: Environment, c: Environment, m: Set<VString>) requires frame(a, b, m), frame(b, c, m) ensures frame(a, c, m)
{
    assert forall|i: int, k: VString| 0 <= i < depth(a) && #[trigger] at(a, i).contains_key(k) implies at(c, i).contains_key(k) by { assert(at(b, i).contains_key(k)); }
    assert forall|i: int, k: VString| 0 <= i < depth(a) && #[trigger] at(c, i).contains_key(k) && !m.contains(k) implies at(a, i).contains_key(k) && at(c, i)[k] == at(a, i)[k] by { assert(at(b, i).contains_key(k)); }
}
pub proof fn lemma_wider(a: Environment, b: Environment, m: Set<VString>, n: Set<VString>) requires frame(a, b, m), m.subset_of(n) ensures frame(a, b, n) {}
pub proof fn lemma_raised(a: Environment, b: Environment, m: Set<VString>, u: bool) requires raised(a, b, m, u) ensures frame(a, b, m)
{
    assert forall|i: int, k: VString| 0 <= i < depth(a) && #[trigger] at(a, i).contains_key(k) implies at(b, i).contains_key(k) by { assert(at(a, i).contains_key(k) == at(b, i).contains_key(k)); }
    assert forall|i: int, k: VString| 0 <= i < depth(a) && #[trigger] at(b, i).contains_key(k) && !m.contains(k) implies at(a, i).contains_key(k) && at(b, i)[k] == at(a, i)[k] by { assert(at(a, i).contains_key(k) == at(b, i).contains_key(k)); }
}
pub proof fn lemma_widened(i: Environment, x: Environment, w: Environment, m: Set<VString>) requires frame(i, x, m), widened(i, x, w, m) ensures frame(i, w, m), grown(i, w)
{
    assert forall|j: int, k: VString| 0 <= j < depth(i) && #[trigger] at(i, j).contains_key(k) implies at(w, j).contains_key(k) by { assert(at(x, j).contains_key(k) == at(w, j).contains_key(k)); }
    assert forall|j: int, k: VString| 0 <= j < depth(i) && #[trigger] at(w, j).contains_key(k) && !m.contains(k) implies at(i, j).contains_key(k) && at(w, j)[k] == at(i, j)[k] by { assert(at(x, j).contains_key(k) == at(w, j).contains_key(k)); }
    lemma_frame(i, x, m); lemma_doms(x, w);
    assert forall|k: VString| (#[trigger] i.lookup(k)) is Some implies w.lookup(k) is Some && height(w.lookup(k)->0) >= height(i.lookup(k)->0) by {
        assert(x.lookup(k) is Some); assert(homed(x, k) == homed(w, k)); lemma_home(x.variables@, k);
        let h = homed(x, k);
        assert(at(x, h).contains_key(k)); assert(x.lookup(k)->0 == at(x, h)[k]); assert(w.lookup(k)->0 == at(w, h)[k]);
    }
}
pub proof fn lemma_grown(a: Environment, b: Environment, c: Environment) requires grown(a, b), grown(b, c) ensures grown(a, c)
{ assert forall|k: VString| (#[trigger] a.lookup(k)) is Some implies c.lookup(k) is Some && height(c.lookup(k)->0) >= height(a.lookup(k)->0) by { assert(b.lookup(k) is Some); } }
pub proof fn lemma_met(a: Environment, x: Environment, y: Environment, m: Environment, p: Set<VString>, q: Set<VString>) requires frame(a, x, p), frame(a, y, q), met(x, y, m) ensures frame(a, m, p.union(q))
{
    assert forall|i: int, k: VString| 0 <= i < depth(a) && #[trigger] at(a, i).contains_key(k) implies at(m, i).contains_key(k) by { assert(at(x, i).contains_key(k)); }
    assert forall|i: int, k: VString| 0 <= i < depth(a) && #[trigger] at(m, i).contains_key(k) && !p.union(q).contains(k) implies at(a, i).contains_key(k) && at(m, i)[k] == at(a, i)[k] by {
        if at(x, i).contains_key(k) { assert(at(a, i).contains_key(k)); } else { assert(at(y, i).contains_key(k)); assert(at(a, i).contains_key(k)); }
        assert(at(x, i).contains_key(k)); assert(at(y, i).contains_key(k));
    }
}
pub proof fn lemma_block(a: Environment, m: Environment, n: Environment, b: Environment, s: Set<VString>) requires opened(a, m), frame(m, n, s), opened_by(b, n) ensures frame(a, b, s)
{
    assert forall|i: int, k: VString| 0 <= i < depth(a) && #[trigger] at(a, i).contains_key(k) implies at(b, i).contains_key(k) by { assert(at(a, i) == at(m, i)); assert(at(b, i) == at(n, i)); assert(at(m, i).contains_key(k)); }
    assert forall|i: int, k: VString| 0 <= i < depth(a) && #[trigger] at(b, i).contains_key(k) && !s.contains(k) implies at(a, i).contains_key(k) && at(b, i)[k] == at(a, i)[k] by { assert(at(a, i) == at(m, i)); assert(at(b, i) == at(n, i)); assert(at(n, i).contains_key(k)); }
}

pub proof fn lemma_raise_step(m: Environment, w0: Environment, w1: Environment, t: Set<VString>, k: VString)
    requires raised(m, w0, t, true), !t.contains(k), if w0.lookup(k) is Some { put(w0, w1, k, (Tag::Unknown, (w0.lookup(k)->0).1)) } else { w0 == w1 }
    ensures raised(m, w1, t.insert(k), true)
{
    lemma_doms(m, w0); lemma_home(w0.variables@, k); lemma_home(m.variables@, k);
    assert(homed(m, k) == homed(w0, k));
    if w0.lookup(k) is Some { let h = homed(m, k); assert(at(w0, h)[k] == w0.lookup(k)->0); assert(at(m, h).contains_key(k)); }
    assert forall|i: int, j: VString| 0 <= i < depth(m) implies #[trigger] at(m, i).contains_key(j) == #[trigger] at(w1, i).contains_key(j) by { assert(at(m, i).contains_key(j) == at(w0, i).contains_key(j)); if homed(w0, k) == i && j == k { assert(at(w0, i).contains_key(k)); } }
    assert forall|i: int, j: VString| 0 <= i < depth(m) && #[trigger] at(m, i).contains_key(j) implies at(w1, i)[j] == if t.insert(k).contains(j) && homed(m, j) == i { (Tag::Unknown, at(m, i)[j].1) } else { at(m, i)[j] } by { }
}
pub proof fn lemma_widen_step(i: Environment, x: Environment, w0: Environment, w1: Environment, t: Set<VString>, k: VString)
    requires widened(i, x, w0, t), !t.contains(k),
        if i.lookup(k) is Some && x.lookup(k) is Some { put(w0, w1, k, vmax(i.lookup(k)->0, x.lookup(k)->0)) } else { w0 == w1 }
    ensures widened(i, x, w1, t.insert(k))
{
    lemma_doms(x, w0); lemma_home(w0.variables@, k); lemma_home(x.variables@, k);
    assert(homed(x, k) == homed(w0, k));
    if x.lookup(k) is Some { let h = homed(x, k); assert(at(x, h)[k] == x.lookup(k)->0); assert(at(x, h).contains_key(k)); }
    assert forall|a: int, j: VString| 0 <= a < depth(x) implies #[trigger] at(x, a).contains_key(j) == #[trigger] at(w1, a).contains_key(j) by { assert(at(x, a).contains_key(j) == at(w0, a).contains_key(j)); if homed(w0, k) == a && j == k { assert(at(w0, a).contains_key(k)); } }
    assert forall|a: int, j: VString| 0 <= a < depth(x) && #[trigger] at(x, a).contains_key(j) implies at(w1, a)[j] == if t.insert(k).contains(j) && homed(x, j) == a && i.lookup(j) is Some { vmax(i.lookup(j)->0, at(x, a)[j]) } else { at(x, a)[j] } by { }
}
pub proof fn lemma_same_at(x: Environment, w: Environment, i: Environment, t: Set<VString>, k: VString) requires widened(i, x, w, t), !t.contains(k) ensures x.lookup(k) == w.lookup(k)
{ lemma_doms(x, w); assert(homed(x, k) == homed(w, k)); lemma_home(x.variables@, k); let h = homed(x, k); if h >= 0 { assert(at(x, h).contains_key(k)); } }

pub proof fn lemma_put(a: Environment, b: Environment, k: VString) requires put(a, b, k, b.lookup(k)->0) || exists|v: (Tag, bool)| #[trigger] put(a, b, k, v) ensures frame(a, b, Set::<VString>::empty().insert(k))
{
    let v = choose|v: (Tag, bool)| #[trigger] put(a, b, k, v);
    lemma_home(a.variables@, k);
    assert forall|i: int, j: VString| 0 <= i < depth(a) && #[trigger] at(a, i).contains_key(j) implies at(b, i).contains_key(j) by { }
    assert forall|i: int, j: VString| 0 <= i < depth(a) && #[trigger] at(b, i).contains_key(j) && !Set::<VString>::empty().insert(k).contains(j) implies at(a, i).contains_key(j) && at(b, i)[j] == at(a, i)[j] by { if i == homed(a, k) { assert(at(b, i) == at(a, i).insert(k, v)); } else { assert(at(b, i) == at(a, i)); } }
}

pub proof fn lemma_settled(i: Environment, x: Environment, t: Set<VString>, k: VString) ensures settled(i, x, t.insert(k)) == (settled(i, x, t) && !unsettled_at(i, x, k))
{
    if settled(i, x, t.insert(k)) { assert(t.insert(k).contains(k)); assert forall|j: VString| #[trigger] t.contains(j) implies !unsettled_at(i, x, j) by { assert(t.insert(k).contains(j)); } }
}

pub proof fn lemma_opened(a: Environment, b: Environment) requires b.blocks() =~= a.blocks().push(Map::empty()), b.components == a.components ensures opened(a, b)
{
    assert(b.blocks().len() == a.blocks().len() + 1);
    assert(b.blocks()[depth(a) as int] == at(b, depth(a) as int));
    assert forall|i: int| 0 <= i < depth(a) implies #[trigger] at(a, i) == at(b, i) by { assert(b.blocks()[i] == at(b, i)); assert(a.blocks()[i] == at(a, i)); assert(a.blocks().push(Map::empty())[i] == a.blocks()[i]); }
}

pub proof fn lemma_added(a: Environment, b: Environment, k: VString, v: (Tag, bool)) requires depth(a) > 0, b.blocks() =~= a.blocks().drop_last().push(a.blocks().last().insert(k, v)), b.components == a.components
    ensures bound_new(a, b, k, v), frame(a, b, Set::<VString>::empty().insert(k))
{
    assert(b.blocks().len() == a.blocks().len());
    assert forall|i: int| 0 <= i < depth(a) implies #[trigger] at(b, i) == if i == depth(a) - 1 { at(a, i).insert(k, v) } else { at(a, i) } by { assert(b.blocks()[i] == at(b, i)); assert(a.blocks()[i] == at(a, i)); }
    assert forall|i: int, j: VString| 0 <= i < depth(a) && #[trigger] at(a, i).contains_key(j) implies at(b, i).contains_key(j) by { assert(at(b, i) == if i == depth(a) - 1 { at(a, i).insert(k, v) } else { at(a, i) }); }
    assert forall|i: int, j: VString| 0 <= i < depth(a) && #[trigger] at(b, i).contains_key(j) && !Set::<VString>::empty().insert(k).contains(j) implies at(a, i).contains_key(j) && at(b, i)[j] == at(a, i)[j] by { assert(at(b, i) == if i == depth(a) - 1 { at(a, i).insert(k, v) } else { at(a, i) }); }
}

// where a definition begins: its parameters are known
pub open spec fn entered(params: Seq<VString>, n: int, a: Environment) -> bool {
    depth(a) == 1 && a.components@ == Map::<VString, Tag>::empty() && forall|k: VString| #![trigger at(a, 0).contains_key(k)] at(a, 0).contains_key(k) == params.take(n).contains(k) && (at(a, 0).contains_key(k) ==> at(a, 0)[k] == (Tag::Known, true))
}
pub open spec fn sound(params: Seq<VString>, body: Statement) -> bool { exists|a: Environment, b: Environment| #[trigger] inside(a, b) && entered(params, params.len() as int, a) && flow(body, a, b, true) }
pub open spec fn unsound(params: Seq<VString>, body: Statement) -> bool { exists|a: Environment, b: Environment| #[trigger] inside(a, b) && entered(params, params.len() as int, a) && flow(body, a, b, false) }
pub proof fn lemma_entered(params: Seq<VString>, n: int, a: Environment, b: Environment) requires 0 <= n < params.len(), entered(params, n, a), b.blocks() =~= a.blocks().drop_last().push(a.blocks().last().insert(params[n], (Tag::Known, true))), b.components == a.components
    ensures entered(params, n + 1, b)
{
    lemma_added(a, b, params[n], (Tag::Known, true));
    assert(at(b, 0) == at(a, 0).insert(params[n], (Tag::Known, true)));
    assert(params.take(n + 1) =~= params.take(n).push(params[n]));
    assert forall|k: VString| #![trigger at(b, 0).contains_key(k)] at(b, 0).contains_key(k) == params.take(n + 1).contains(k) && (at(b, 0).contains_key(k) ==> at(b, 0)[k] == (Tag::Known, true)) by {
        assert(at(a, 0).contains_key(k) == params.take(n).contains(k));
        if params.take(n + 1).contains(k) { let j = choose|j: int| 0 <= j < n + 1 && #[trigger] params.take(n + 1)[j] == k; if j < n { assert(params.take(n)[j] == k); } }
        if params.take(n).contains(k) { let j = choose|j: int| 0 <= j < n && #[trigger] params.take(n)[j] == k; assert(params.take(n + 1)[j] == k); }
        assert(params.take(n + 1)[n] == params[n]);
    }
}

// what the parser delivers: no branch or loop body is a bare declaration
pub open spec fn closed(s: Statement) -> bool { !(s is Declaration) && !(s is InitializationBlock) }
pub open spec fn tidy(s: Statement) -> bool decreases s {
    match s {
        Statement::IfThenElse { if_case, else_case, .. } => closed(*if_case) && tidy(*if_case) && match else_case { Some(o) => closed(*o) && tidy(*o), None => true },
        Statement::While { stmt, .. } => closed(*stmt) && tidy(*stmt),
        Statement::Block { stmts, .. } => tidy_all(stmts, stmts@.len()),
        Statement::InitializationBlock { initializations, .. } => tidy_all(initializations, initializations@.len()),
        _ => true,
    }
}
pub open spec fn tidy_all(v: Vec<Statement>, n: nat) -> bool decreases v, n { if n == 0 { true } else { n <= v@.len() && tidy_all(v, (n - 1) as nat) && tidy(v@[n - 1]) } }
pub proof fn lemma_tidy_at(v: Vec<Statement>, n: nat, i: int) requires tidy_all(v, n), 0 <= i < n ensures i < v@.len(), tidy(v@[i]) decreases n { if i < n - 1 { lemma_tidy_at(v, (n - 1) as nat, i); } }
// the first n blocks bind the same names, arrays stay arrays
pub open spec fn steady(a: Environment, b: Environment, n: int) -> bool {
    depth(a) == depth(b) && forall|i: int, k: VString| #![trigger at(a, i).contains_key(k)] #![trigger at(b, i).contains_key(k)] 0 <= i < n ==> at(a, i).contains_key(k) == at(b, i).contains_key(k) && (at(a, i).contains_key(k) ==> at(a, i)[k].1 == at(b, i)[k].1)
}
pub proof fn lemma_steady(a: Environment, b: Environment, c: Environment, n: int) requires steady(a, b, n), steady(b, c, n) ensures steady(a, c, n)
{
    assert forall|i: int, k: VString| #![trigger at(a, i).contains_key(k)] #![trigger at(c, i).contains_key(k)] 0 <= i < n implies at(a, i).contains_key(k) == at(c, i).contains_key(k) && (at(a, i).contains_key(k) ==> at(a, i)[k].1 == at(c, i)[k].1) by { assert(at(a, i).contains_key(k) == at(b, i).contains_key(k)); assert(at(b, i).contains_key(k) == at(c, i).contains_key(k)); }
}
pub proof fn lemma_raised_steady(a: Environment, b: Environment, m: Set<VString>, u: bool) requires raised(a, b, m, u) ensures steady(a, b, depth(a) as int)
{
    assert forall|i: int, k: VString| #![trigger at(a, i).contains_key(k)] #![trigger at(b, i).contains_key(k)] 0 <= i < depth(a) implies at(a, i).contains_key(k) == at(b, i).contains_key(k) && (at(a, i).contains_key(k) ==> at(a, i)[k].1 == at(b, i)[k].1) by { assert(at(a, i).contains_key(k) == at(b, i).contains_key(k)); }
}
pub proof fn lemma_met_steady(a: Environment, x: Environment, y: Environment, m: Environment) requires steady(a, x, depth(a) as int), steady(a, y, depth(a) as int), met(x, y, m) ensures steady(a, m, depth(a) as int)
{
    assert forall|i: int, k: VString| #![trigger at(a, i).contains_key(k)] #![trigger at(m, i).contains_key(k)] 0 <= i < depth(a) implies at(a, i).contains_key(k) == at(m, i).contains_key(k) && (at(a, i).contains_key(k) ==> at(a, i)[k].1 == at(m, i)[k].1) by {
        assert(at(a, i).contains_key(k) == at(x, i).contains_key(k)); assert(at(a, i).contains_key(k) == at(y, i).contains_key(k)); assert(at(m, i).contains_key(k) == (at(x, i).contains_key(k) || at(y, i).contains_key(k)));
    }
}
pub proof fn lemma_steady_lookup(a: Environment, b: Environment) requires steady(a, b, depth(a) as int)
    ensures forall|k: VString| #[trigger] homed(a, k) == homed(b, k), forall|k: VString| #[trigger] a.lookup(k) is Some == b.lookup(k) is Some, forall|k: VString| (#[trigger] a.lookup(k)) is Some ==> (a.lookup(k)->0).1 == (b.lookup(k)->0).1
{
    assert(doms(a, b)) by { assert forall|i: int, k: VString| 0 <= i < depth(a) implies #[trigger] at(a, i).contains_key(k) == #[trigger] at(b, i).contains_key(k) by {} }
    lemma_doms(a, b);
    assert forall|k: VString| (#[trigger] a.lookup(k)) is Some implies (a.lookup(k)->0).1 == (b.lookup(k)->0).1 by { assert(homed(a, k) == homed(b, k)); lemma_home(a.variables@, k); assert(at(a, homed(a, k)).contains_key(k)); }
}
pub proof fn lemma_widened_steady(i: Environment, x: Environment, w: Environment, m: Set<VString>) requires steady(i, x, depth(i) as int), widened(i, x, w, m) ensures steady(i, w, depth(i) as int)
{
    lemma_steady_lookup(i, x);
    assert forall|j: int, k: VString| #![trigger at(i, j).contains_key(k)] #![trigger at(w, j).contains_key(k)] 0 <= j < depth(i) implies at(i, j).contains_key(k) == at(w, j).contains_key(k) && (at(i, j).contains_key(k) ==> at(i, j)[k].1 == at(w, j)[k].1) by {
        assert(at(i, j).contains_key(k) == at(x, j).contains_key(k)); assert(at(x, j).contains_key(k) == at(w, j).contains_key(k));
        if at(x, j).contains_key(k) && m.contains(k) && homed(x, k) == j && i.lookup(k) is Some { assert(homed(i, k) == homed(x, k)); assert(i.lookup(k)->0 == at(i, j)[k]); }
    }
}
pub proof fn lemma_block_steady(a: Environment, m: Environment, n: Environment, b: Environment) requires opened(a, m), steady(m, n, depth(a) as int), opened_by(b, n) ensures steady(a, b, depth(a) as int)
{
    assert forall|i: int, k: VString| #![trigger at(a, i).contains_key(k)] #![trigger at(b, i).contains_key(k)] 0 <= i < depth(a) implies at(a, i).contains_key(k) == at(b, i).contains_key(k) && (at(a, i).contains_key(k) ==> at(a, i)[k].1 == at(b, i)[k].1) by { assert(at(a, i) == at(m, i)); assert(at(b, i) == at(n, i)); assert(at(m, i).contains_key(k) == at(n, i).contains_key(k)); }
}
pub proof fn lemma_put_steady(a: Environment, b: Environment, k: VString, v: (Tag, bool)) requires put(a, b, k, v), a.lookup(k) is Some, v.1 == (a.lookup(k)->0).1 ensures steady(a, b, depth(a) as int)
{
    lemma_home(a.variables@, k);
    assert forall|i: int, j: VString| #![trigger at(a, i).contains_key(j)] #![trigger at(b, i).contains_key(j)] 0 <= i < depth(a) implies at(a, i).contains_key(j) == at(b, i).contains_key(j) && (at(a, i).contains_key(j) ==> at(a, i)[j].1 == at(b, i)[j].1) by { if i == homed(a, k) { assert(at(b, i) == at(a, i).insert(k, v)); assert(at(a, i).contains_key(k)); } else { assert(at(b, i) == at(a, i)); } }
}
// the names of m still known
pub open spec fn known_in(e: Environment) -> spec_fn(VString) -> bool { |k: VString| e.lookup(k) is Some && (e.lookup(k)->0).0 is Known }
pub open spec fn known_of(e: Environment, m: Set<VString>) -> Set<VString> { m.filter(known_in(e)) }
pub proof fn lemma_fewer(i: Environment, x: Environment, w: Environment, m: Set<VString>) requires frame(i, x, m), steady(i, x, depth(i) as int), widened(i, x, w, m), !settled(i, x, m) ensures known_of(w, m).len() < known_of(i, m).len()
{
    lemma_widened_steady(i, x, w, m); lemma_steady_lookup(i, x); lemma_steady_lookup(i, w); lemma_widened(i, x, w, m);
    let k = choose|k: VString| #[trigger] m.contains(k) && unsettled_at(i, x, k);
    lemma_home(x.variables@, k); assert(homed(i, k) == homed(x, k)); assert(homed(i, k) == homed(w, k));
    let h = homed(x, k); assert(at(x, h).contains_key(k)); assert(w.lookup(k)->0 == at(w, h)[k]);
    assert(known_of(i, m).contains(k)); assert(!known_of(w, m).contains(k));
    assert(known_of(w, m).subset_of(known_of(i, m))) by {
        assert forall|j: VString| known_of(w, m).contains(j) implies known_of(i, m).contains(j) by { assert(w.lookup(j) is Some); assert(i.lookup(j) is Some); assert(height(w.lookup(j)->0) >= height(i.lookup(j)->0)); }
    }
    vstd::set_lib::lemma_len_subset(known_of(w, m), known_of(i, m).remove(k));
}
%end
%fn add_report
    requires error_code is UnknownTemplateAssignment || error_code is UnknownBus || error_code is UnknownDimension || error_code is UnknownTemplate || error_code is NonValidTagAssignment || error_code is NonQuadratic || error_code is UnreachableConstraints || error_code is UnreachableTags || error_code is UnreachableSignals
    ensures final(reports)@.len() == old(reports)@.len() + 1
%fn tag ret=r
    ensures r == tag_e(*expression, *environment)
    decreases expression
%subst meta.get_type_knowledge().get_reduces_to() => reduces_to(meta)
%subst environment.get_variable_or_break(name, file!(), line!()) => bound_variable(environment, name)
%subst environment.get_component_or_break(name, file!(), line!()) => bound_component(environment, name)
%subst return vunreachable() => return out_of_place()
%fn expression_iterator ret=r
    requires look_for is Unknown, end_tag is Known
    ensures r == tag_es(*values, values@.len(), *environment)
    decreases values
%subst values: &[Expression] => values: &Vec<Expression>
%loop 0
    tag_es(*values, it_0.pos() as nat, *environment) is Known, look_for is Unknown, end_tag is Known,
%at before_return 0
proof { lemma_tag_mono(*values, it_0.pos() as nat, values@.len(), *environment); }
%fn is_non_quadratic ret=r
    ensures r == uidx(*exp, *environment)
%fn unknown_index ret=r
    ensures r == uidx(*exp, *environment)
    decreases exp
%attr verifier::allow_complex_invariants
%loop 0
invariant_except_break !has_unknown_index, tag_acc(*access, it_0.pos() as nat, *environment) is Known,
ensures has_unknown_index == (tag_acc(*access, access@.len(), *environment) is Unknown),
%at loop_start 0
proof { assert(*acc == access@[it_0.pos() - 1]); if tag_acc(*access, it_0.pos() as nat, *environment) is Unknown { lemma_acc_mono(*access, it_0.pos() as nat, access@.len(), *environment); } }
%loop 1
invariant_except_break !has_unknown_index, !uidxs(*exprs, it_1.pos() as nat, *environment),
ensures has_unknown_index == uidxs(*exprs, exprs@.len(), *environment),
%at loop_start 1
proof { if uidxs(*exprs, it_1.pos() as nat, *environment) { lemma_uidx_mono(*exprs, it_1.pos() as nat, exprs@.len(), *environment); } }
%subst return vunreachable() => return out_of_place()

%fn check_modified ret=r
    requires frame(initial_state, *old(final_state), modified_variables@)
    ensures widened(initial_state, *old(final_state), *final(final_state), modified_variables@), r == !settled(initial_state, *old(final_state), modified_variables@)
%subst initial_state.get_variable_or_break(v, file!(), line!()) => bound_variable(&initial_state, v)
%subst final_state.get_mut_variable_or_break(v, file!(), line!()) => bound_mut(final_state, v)
%at start
let ghost x0 = *final_state;
%loop 0
    frame(initial_state, x0, modified_variables@), keyseq_ref(it_0.items(), modified_variables@),
    widened(initial_state, x0, *final_state, taken(it_0.items(), it_0.pos())), modified == !settled(initial_state, x0, taken(it_0.items(), it_0.pos())),
%at loop_start 0
let ghost w0 = *final_state;
proof { lemma_taken(it_0.items(), modified_variables@, it_0.pos()); lemma_same_at(x0, w0, initial_state, taken(it_0.items(), it_0.pos() - 1), *v); }
%at loop_end 0
proof {
    lemma_widen_step(initial_state, x0, w0, *final_state, taken(it_0.items(), it_0.pos() - 1), *v);
    lemma_settled(initial_state, x0, taken(it_0.items(), it_0.pos() - 1), *v);
}
%at after_loop 0
proof { lemma_taken_all(it_0.items(), modified_variables@); }

%fn iterate_statements ret=r
    requires depth(environment) > 0, tidy_all(*stmts, stmts@.len())
    ensures r.0 == constrains_all(*stmts, stmts@.len()), r.1 == tags_all(*stmts, stmts@.len()), r.2 == declares_all(*stmts, stmts@.len()), r.5@ == assigns_all(*stmts, stmts@.len()),
        frame(environment, r.4, r.5@), steady(environment, r.4, depth(environment) - 1), r.3@.len() >= reports@.len(), flows(*stmts, stmts@.len(), environment, r.4, r.3@.len() == reports@.len())
    decreases stmts
%subst stmts: &[Statement] => stmts: &Vec<Statement>
%at start
let ghost e0 = environment; let ghost n0 = reports@.len();
%loop 0
    constraints_declared == constrains_all(*stmts, it_0.pos() as nat), tags_modified == tags_all(*stmts, it_0.pos() as nat), signals_declared == declares_all(*stmts, it_0.pos() as nat),
    modified_variables@ == assigns_all(*stmts, it_0.pos() as nat), depth(e0) > 0,
    frame(e0, environment, modified_variables@), steady(e0, environment, depth(e0) - 1), reports@.len() >= n0, flows(*stmts, it_0.pos() as nat, e0, environment, reports@.len() == n0),
%at loop_start 0
proof { lemma_tidy_at(*stmts, stmts@.len(), it_0.pos() - 1); }
let ghost e1 = environment; let ghost n1 = reports@.len(); let ghost m1 = modified_variables@;
%at after_let exit 0
let ghost exit_env = exit.environment;
%loop 1
    reports@.len() == n1 + it_1.pos(),
%at after_loop 1
proof {
    let p = n1 == n0; let q = exit.reports@.len() == 0;
    lemma_steady(e0, e1, exit_env, depth(e0) - 1); lemma_wider(e0, e1, m1, modified_variables@); lemma_wider(e1, exit_env, assigns(*stmt), modified_variables@); lemma_frames(e0, e1, exit_env, modified_variables@);
    assert(step(e1, p, q));
}
%fn analyze ret=r
    requires depth(entry_information.environment) > 0, tidy(*stmt)
    ensures r.constraints_declared == constrains(*stmt), r.tags_modified == tags(*stmt), r.signals_declared == declares(*stmt), r.modified_variables@ == assigns(*stmt),
        frame(entry_information.environment, r.environment, assigns(*stmt)),
        steady(entry_information.environment, r.environment, if closed(*stmt) { depth(entry_information.environment) as int } else { depth(entry_information.environment) - 1 }),
        flow(*stmt, entry_information.environment, r.environment, r.reports@.len() == 0)
    decreases stmt
%attr verifier::allow_complex_invariants
%subst meta.get_type_knowledge().get_reduces_to() => reduces_to(meta)
%subst environment.get_mut_variable_or_break(var, file!(), line!()) => bound_mut(&mut environment, var)
%subst environment.clone() => environment_clone(&environment)
%subst Environment::merge( => env_merge(
%subst |a, b| { => |a: (Tag, bool), b: (Tag, bool)| -> (r: (Tag, bool)) ensures r == vmax(a, b) {
%at start
let ghost e0 = entry_information.environment;
let ghost mut gi = e0; let ghost mut gx = e0; let ghost mut xa = e0; let ghost mut xb = e0; let ghost mut m0 = e0; let ghost mut w1 = e0; let ghost mut bm = e0; let ghost mut bn = e0;
let ghost mut p = true; let ghost mut q = true; let ghost mut rpn = 0nat; let ghost mut lp = 0nat; let ghost mut etag = Tag::Known; let ghost mut atag = Tag::Known;
let ghost mut if_m = Set::<VString>::empty(); let ghost mut else_m = Set::<VString>::empty();
%at after_let entry_info 0
proof { gi = environment; }
%at after_let exit 0
proof { gx = exit.environment; }
%at after_assign entry_info 0
proof { lemma_widened(gi, gx, environment, assigns(**stmt)); lemma_frames(e0, gi, environment, assigns(**stmt)); lemma_grown(e0, gi, environment); lemma_fewer(gi, gx, environment, assigns(**stmt)); lemma_widened_steady(gi, gx, environment, assigns(**stmt)); lemma_steady(e0, gi, environment, depth(e0) as int); gi = environment; }
%at after_assign exit 0
proof { gx = exit.environment; }
%at pre_loop 6
proof { w1 = environment; lp = exit.reports@.len(); lemma_widened(gi, gx, w1, assigns(**stmt)); lemma_frames(e0, gi, w1, assigns(**stmt)); lemma_widened_steady(gi, gx, w1, assigns(**stmt)); lemma_steady(e0, gi, w1, depth(e0) as int); }
%at after_call add_variable_block 0
proof { bm = environment; lemma_opened(e0, bm); }
%at after_assign environment 3
proof { bn = environment; }
%at post_loop 1
proof { etag = expression_tag; atag = access_tag; }
%loop 0
    (reports@.len() == 0) == (tag_es(*dimensions, it_0.pos() as nat, environment) is Known), dimensions@.len() == it_0.items().len(),
%loop 1
invariant_except_break access_tag is Known, tag_acc(*access, it_1.pos() as nat, environment) is Known,
ensures access_tag == tag_acc(*access, access@.len(), environment),
%at loop_start 1
proof { if tag_acc(*access, it_1.pos() as nat, environment) is Unknown { lemma_acc_mono(*access, it_1.pos() as nat, access@.len(), environment); } }
%at pre_loop 2
proof { xa = if_case_info.environment; xb = else_case_info.environment; p = if_case_info.reports@.len() == 0; q = else_case_info.reports@.len() == 0; rpn = if_case_info.reports@.len(); }
proof { if_m = if_case_info.modified_variables@; else_m = else_case_info.modified_variables@; }
%loop 2
    reports@.len() == it_2.pos(),
%loop 3
    reports@.len() == rpn + it_3.pos(),
%at after_assign environment 0
proof { m0 = environment; lemma_met(e0, xa, xb, m0, if_m, else_m); }
%loop 4
    raised(m0, environment, taken(it_4.items(), it_4.pos()), true), keyseq_ref(it_4.items(), modified_variables@),
%at loop_start 4
let ghost w0 = environment;
proof { lemma_taken(it_4.items(), modified_variables@, it_4.pos()); lemma_doms(m0, w0); }
%at loop_end 4
proof { lemma_raise_step(m0, w0, environment, taken(it_4.items(), it_4.pos() - 1), *var); }
%at after_loop 4
proof { lemma_taken_all(it_4.items(), modified_variables@); }
%loop 5
    grown(e0, gi), frame(e0, gi, assigns(**stmt)), steady(e0, gi, depth(e0) as int), steady(gi, gx, depth(gi) as int), depth(gi) == depth(e0), flow(**stmt, gi, gx, exit.reports@.len() == 0), widened(gi, gx, environment, assigns(**stmt)), frame(gi, gx, assigns(**stmt)), modified == !settled(gi, gx, assigns(**stmt)),
    exit.constraints_declared == constrains(**stmt), exit.tags_modified == tags(**stmt), exit.signals_declared == declares(**stmt), exit.modified_variables@ == assigns(**stmt), depth(e0) > 0,
    decreases known_of(gi, assigns(**stmt)).len()
%loop 6
    reports@.len() == it_6.pos(),
%loop 7
    raised(w1, environment, taken(it_7.items(), it_7.pos()), true), keyseq_ref(it_7.items(), exit.modified_variables@),
%at loop_start 7
let ghost w0 = environment;
proof { lemma_taken(it_7.items(), exit.modified_variables@, it_7.pos()); lemma_doms(w1, w0); }
%at loop_end 7
proof { lemma_raise_step(w1, w0, environment, taken(it_7.items(), it_7.pos() - 1), *var); }
%at after_loop 7
proof { lemma_taken_all(it_7.items(), exit.modified_variables@); }
%at end
proof {
    let b = environment; let ok = reports@.len() == 0;
    if stmt is Block { assert(inside(bm, bn)); assert(opened(e0, bm)); assert(opened_by(b, bn)); lemma_block(e0, bm, bn, b, assigns(*stmt)); lemma_block_steady(e0, bm, bn, b); }
    else if stmt is Declaration { if stmt->Declaration_xtype is Var { lemma_added(e0, b, stmt->Declaration_name, (Tag::Known, stmt->Declaration_dimensions@.len() > 0)); } assert(declared(e0, b, stmt->Declaration_xtype, stmt->Declaration_name, stmt->Declaration_dimensions@.len() > 0)); assert(frame(e0, b, assigns(*stmt))); }
    else if stmt is Substitution {
        if reduced(stmt->Substitution_meta) is Variable { assert(assigned(e0, b, stmt->Substitution_var, tmax(etag, atag))); lemma_put(e0, b, stmt->Substitution_var); let v0 = e0.lookup(stmt->Substitution_var)->0; lemma_put_steady(e0, b, stmt->Substitution_var, (if !v0.1 || v0.0 is Known { tmax(etag, atag) } else { v0.0 }, v0.1)); } else { assert(same(e0, b)); }
        assert(frame(e0, b, assigns(*stmt)));
    } else if stmt is IfThenElse {
        let c = tag_e(stmt->IfThenElse_cond, e0) is Unknown;
        assert(modified_variables@ =~= assigns(*stmt));
        assert(raised(m0, b, assigns(*stmt), c)); lemma_raised(m0, b, assigns(*stmt), c); lemma_frames(e0, m0, b, assigns(*stmt)); lemma_met_steady(e0, xa, xb, m0); lemma_raised_steady(m0, b, assigns(*stmt), c); lemma_steady(e0, m0, b, depth(e0) as int);
        assert(branches(xa, xb, m0, p, q));
    } else if stmt is While {
        let m = assigns(*stmt); let c = tag_e(stmt->While_cond, w1) is Unknown;
        assert(raised(w1, b, m, c)); lemma_raised(w1, b, m, c); lemma_frames(e0, w1, b, m); lemma_raised_steady(w1, b, m, c); lemma_steady(e0, w1, b, depth(e0) as int);
        assert(passes(gi, gx, w1, lp == 0));
    } else if !(stmt is InitializationBlock) { assert(same(e0, b)); }
}

%fn unknown_known_analysis ret=r
    requires program_archive.templates@.contains_key(key(name@)) || program_archive.buses@.contains_key(key(name@)),
        forall|k: VString| #[trigger] program_archive.templates@.contains_key(k) ==> tidy(program_archive.templates@[k].body), forall|k: VString| #[trigger] program_archive.buses@.contains_key(k) ==> tidy(program_archive.buses@[k].body)
    ensures ({
        let k = key(name@);
        let (ps, body) = if program_archive.templates@.contains_key(k) { (program_archive.templates@[k].name_of_params@, program_archive.templates@[k].body) } else { (program_archive.buses@[k].name_of_params@, program_archive.buses@[k].body) };
        if r is Ok { sound(ps, body) } else { unsound(ps, body) }
    })
%at after_let environment 0
proof { assert(environment.blocks().len() == 1); assert(environment.blocks()[0] == at(environment, 0)); assert(environment.blocks()[0] == Map::<VString, (Tag, bool)>::empty()); }
%loop 0
    program_archive.templates@.contains_key(key(name@)), entered(program_archive.templates@[key(name@)].name_of_params@, it_0.pos(), environment), it_0.items().len() == program_archive.templates@[key(name@)].name_of_params@.len(),
%at loop_start 0
let ghost w0 = environment;
%at loop_end 0
proof { lemma_entered(program_archive.templates@[key(name@)].name_of_params@, it_0.pos() - 1, w0, environment); }
%loop 1
    program_archive.buses@.contains_key(key(name@)), entered(program_archive.buses@[key(name@)].name_of_params@, it_1.pos(), environment), it_1.items().len() == program_archive.buses@[key(name@)].name_of_params@.len(),
%at loop_start 1
let ghost w0 = environment;
%at loop_end 1
proof { lemma_entered(program_archive.buses@[key(name@)].name_of_params@, it_1.pos() - 1, w0, environment); }
%at after_let result 0
proof { assert(inside(entry_env, result.environment)); }
%at after_let entry 0
let ghost entry_env = entry.environment;
