%use ops.rs
%use bigint.rs
%use std.rs
%use iter.rs
%use maps.rs
%use vstring.rs
%mod algebra
%source circom_algebra/src/algebra.rs
%bound C = VEq<C>
%verbatim
pub use self::ArithmeticExpression::*;
%end
%item ArithmeticExpression attr=verifier::reject_recursive_types(C)
%verbatim
// equality of container contents (PartialEq of std)
impl<K, V: VEq<V>> VEq<HashMap<K, V>> for HashMap<K, V> {
    open spec fn veq_spec(&self, o: &HashMap<K, V>) -> bool { self@.dom() == o@.dom() && forall|k: K| #[trigger] self@.contains_key(k) ==> self@[k].veq_spec(&o@[k]) }
    #[verifier::external_body] fn veq(&self, o: &HashMap<K, V>) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vne(&self, o: &HashMap<K, V>) -> (b: bool) { unimplemented!() }
}
impl<K, V: VEq<V>> VEq<BTreeMap<K, V>> for BTreeMap<K, V> {
    open spec fn veq_spec(&self, o: &BTreeMap<K, V>) -> bool { self@.dom() == o@.dom() && forall|k: K| #[trigger] self@.contains_key(k) ==> self@[k].veq_spec(&o@[k]) }
    #[verifier::external_body] fn veq(&self, o: &BTreeMap<K, V>) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vne(&self, o: &BTreeMap<K, V>) -> (b: bool) { unimplemented!() }
}
impl<V: VEq<V>> VEq<Vec<V>> for Vec<V> {
    open spec fn veq_spec(&self, o: &Vec<V>) -> bool { self@.len() == o@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).veq_spec(&o@[i]) }
    #[verifier::external_body] fn veq(&self, o: &Vec<V>) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vne(&self, o: &Vec<V>) -> (b: bool) { unimplemented!() }
}
impl VEq<VString> for VString {
    open spec fn veq_spec(&self, o: &VString) -> bool { *self == *o }
    #[verifier::external_body] fn veq(&self, o: &VString) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vne(&self, o: &VString) -> (b: bool) { unimplemented!() }
}
impl<'a> VEq<&'a str> for VString {
    open spec fn veq_spec(&self, o: &&'a str) -> bool { *self == key((*o)@) }
    #[verifier::external_body] fn veq(&self, o: &&'a str) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vne(&self, o: &&'a str) -> (b: bool) { unimplemented!() }
}
// the same value: kind and every coefficient
pub open spec fn aeq<C: VEq<C>>(x: &ArithmeticExpression<C>, y: &ArithmeticExpression<C>) -> bool {
    match (x, y) {
        (Number { value: v }, Number { value: w }) => v@ == w@,
        (Signal { symbol: s }, Signal { symbol: t }) => s.veq_spec(t),
        (Linear { coefficients: s }, Linear { coefficients: t }) => s.veq_spec(t),
        (Quadratic { a, b, c }, Quadratic { a: a1, b: b1, c: c1 }) => a.veq_spec(a1) && b.veq_spec(b1) && c.veq_spec(c1),
        _ => false,
    }
}
impl<C: VEq<C>> VEq<ArithmeticExpression<C>> for ArithmeticExpression<C> {
    open spec fn veq_spec(&self, o: &ArithmeticExpression<C>) -> bool { aeq(self, o) }
    fn veq(&self, o: &ArithmeticExpression<C>) -> (b: bool) { self.eq(o) }
    fn vne(&self, o: &ArithmeticExpression<C>) -> (b: bool) { !self.eq(o) }
}
%end
%fn PartialEq@ArithmeticExpression::eq ret=r ops
    ensures r == aeq(self, other)

%mod memory_slice
%source program_structure/src/utils/memory_slice.rs
%bound C = VEq<C>
%verbatim
pub type SliceCapacity = usize;
%end
%item MemorySlice
%verbatim
// the same array: dimensions and every cell
pub closed spec fn seq_same<C: VEq<C>>(x: &MemorySlice<C>, y: &MemorySlice<C>) -> bool {
    x.route@ == y.route@ && x.values@.len() == y.values@.len()
        && forall|i: int| 0 <= i < x.values@.len() ==> (#[trigger] x.values@[i]).veq_spec(&y.values@[i])
}
impl<C: VEq<C>> VEq<MemorySlice<C>> for MemorySlice<C> {
    open spec fn veq_spec(&self, o: &MemorySlice<C>) -> bool { seq_same(self, o) }
    fn veq(&self, o: &MemorySlice<C>) -> (b: bool) { self.eq(o) }
    fn vne(&self, o: &MemorySlice<C>) -> (b: bool) { !self.eq(o) }
}
%end
%fn PartialEq@MemorySlice::eq ret=r ops
    ensures r == seq_same(self, other)
%at tail
assert(r__ ==> self.route@ =~= other.route@);

%mod program
%path String::new=VString::new
%rename_method clone=vsclone
%verbatim
use super::algebra::*;
use super::memory_slice::*;
broadcast use {axiom_key, axiom_key_view};
pub type AExpressionSlice = MemorySlice<ArithmeticExpression<VString>>;
pub trait VsClone: Sized { fn vsclone(&self) -> (r: Self) ensures r == *self; }
impl VsClone for VString { #[verifier::external_body] fn vsclone(&self) -> (r: VString) { unimplemented!() } }
impl std::ops::Deref for VString { type Target = str;
    #[verifier::external_body] fn deref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body]
pub struct Statement { x: u8 }
#[verifier::external_body]
pub struct Analysis { x: u8 }
#[verifier::external_body]
pub struct Constraint { x: u8 }
#[verifier::external_body]
pub struct Connexion { x: u8 }
#[verifier::external_body]
pub struct BusConnexion { x: u8 }
#[verifier::external_body]
pub struct ComponentData { x: u8 }
#[verifier::external_body]
pub struct TagNames { x: u8 }
pub type NodePointer = usize;
pub type ParameterContext = BTreeMap<VString, AExpressionSlice>;
pub type WireCollector = Vec<WireData>;
pub type ComponentCollector = Vec<ComponentData>;
// TagWire: #[derive(PartialEq)] compares the tags with their values and, recursively, the tags of the fields
pub type TagInfo = BTreeMap<VString, Option<BigInt>>;
pub uninterp spec fn fields_same(x: Option<HashMap<VString, TagWire>>, y: Option<HashMap<VString, TagWire>>) -> bool;
pub open spec fn tag_same(x: TagWire, y: TagWire) -> bool {
    x.tags@.dom() == y.tags@.dom() && fields_same(x.fields, y.fields)
        && forall|k: VString| #[trigger] x.tags@.contains_key(k) ==> match (x.tags@[k], y.tags@[k]) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false }
}
impl VEq<TagWire> for TagWire {
    open spec fn veq_spec(&self, o: &TagWire) -> bool { tag_same(*self, *o) }
    #[verifier::external_body] fn veq(&self, o: &TagWire) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vne(&self, o: &TagWire) -> (b: bool) { unimplemented!() }
}
#[verifier::external_body]
pub fn apply_unused(stmt: &mut Statement, analysis: &Analysis, prime: &VString) { unimplemented!() }
#[verifier::external_body]
pub fn apply_computed(stmt: &mut Statement, analysis: &Analysis) { unimplemented!() }

pub type Params = Map<VString, AExpressionSlice>;
pub type Tags = Map<VString, TagWire>;
// every parameter has the same value: same dimensions, same cells
pub open spec fn params_same(x: Params, y: Params) -> bool {
    x.dom() == y.dom() && forall|k: VString| #[trigger] x.contains_key(k) ==> seq_same(&x[k], &y[k])
}
pub open spec fn tags_same(x: Tags, y: Tags) -> bool {
    x.dom() == y.dom() && forall|k: VString| #[trigger] x.contains_key(k) ==> tag_same(x[k], y[k])
}
// the instance `t` is an instance of template `name` with these parameters and tags
pub open spec fn inst_of(t: ExecutedTemplate, name: VString, p: Params, g: Tags) -> bool {
    t.template_name == name && params_same(t.parameter_instances@, p) && tags_same(t.tag_instances@, g)
}
pub open spec fn bus_of(t: ExecutedBus, name: VString, p: Params) -> bool {
    t.bus_name == name && params_same(t.parameter_instances@, p)
}
impl ExecutedProgram {
    // the per-name index lists exactly the instances of that name
    pub open spec fn wf(&self) -> bool {
        &&& forall|n: VString, j: int| #![trigger self.template_to_nodes@[n]@[j]] self.template_to_nodes@.contains_key(n) && 0 <= j < self.template_to_nodes@[n]@.len()
            ==> self.template_to_nodes@[n]@[j] < self.model@.len() && self.model@[self.template_to_nodes@[n]@[j] as int].template_name == n
        &&& forall|i: int| 0 <= i < self.model@.len() ==> self.template_to_nodes@.contains_key((#[trigger] self.model@[i]).template_name)
            && self.template_to_nodes@[self.model@[i].template_name]@.contains(i as usize)
    }
    pub open spec fn bwf(&self) -> bool {
        &&& forall|n: VString, j: int| #![trigger self.bus_to_nodes@[n]@[j]] self.bus_to_nodes@.contains_key(n) && 0 <= j < self.bus_to_nodes@[n]@.len()
            ==> self.bus_to_nodes@[n]@[j] < self.model_buses@.len() && self.model_buses@[self.bus_to_nodes@[n]@[j] as int].bus_name == n
        &&& forall|i: int| 0 <= i < self.model_buses@.len() ==> self.bus_to_nodes@.contains_key((#[trigger] self.model_buses@[i]).bus_name)
            && self.bus_to_nodes@[self.model_buses@[i].bus_name]@.contains(i as usize)
    }
}
// same parts, code aside
pub open spec fn same_but_code(x: ExecutedTemplate, y: ExecutedTemplate) -> bool {
    &&& x.template_name == y.template_name && x.parameter_instances == y.parameter_instances && x.tag_instances == y.tag_instances
    &&& x.constraints == y.constraints && x.inputs == y.inputs && x.outputs == y.outputs && x.intermediates == y.intermediates
    &&& x.ordered_signals == y.ordered_signals && x.components == y.components && x.number_of_components == y.number_of_components
    &&& x.is_custom_gate == y.is_custom_gate && x.is_parallel == y.is_parallel && x.public_inputs == y.public_inputs
}
pub proof fn lemma_push<T>(s: Seq<T>, x: T)
    ensures s.push(x).contains(x), forall|y: T| s.contains(y) ==> #[trigger] s.push(x).contains(y)
{
    assert(s.push(x)[s.len() as int] == x);
    assert forall|y: T| s.contains(y) implies #[trigger] s.push(x).contains(y) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
}
%end
%source constraint_generation/src/execution_data/type_definitions.rs
%item TagWire derives=PartialEq
%item WireData
%source constraint_generation/src/execution_data/executed_bus.rs
%item ExecutedBus
%fn ExecutedBus::new ret=r
    ensures r.bus_name == name, r.parameter_instances == instance
%fn ExecutedBus::is_equal ret=r ops
    ensures r == bus_of(*self, key(name@), context@)
%fn ExecutedBus::bus_name ret=r
    ensures *r == self.bus_name
%fn ExecutedBus::parameter_instances ret=r
    ensures *r == self.parameter_instances
%source constraint_generation/src/execution_data/executed_template.rs
%item PreExecutedTemplate
%item ExecutedTemplate
%fn PreExecutedTemplate::new ret=r
    ensures r.template_name == name, r.parameter_instances == instance, r.inputs == inputs, r.outputs == outputs
%fn PreExecutedTemplate::template_name ret=r
    ensures *r == self.template_name
%fn PreExecutedTemplate::parameter_instances ret=r
    ensures *r == self.parameter_instances
%fn ExecutedTemplate::new ret=r assume
    ensures r.template_name == name, r.parameter_instances == instance, r.tag_instances == tag_instances
%fn ExecutedTemplate::add_tag_signal
    ensures final(self).template_name == old(self).template_name, final(self).parameter_instances == old(self).parameter_instances, final(self).tag_instances == old(self).tag_instances
%fn ExecutedTemplate::is_equal ret=r ops
    ensures r == inst_of(*self, key(name@), context@, tag_context@)
%fn ExecutedTemplate::template_name ret=r
    ensures *r == self.template_name
%fn ExecutedTemplate::parameter_instances ret=r
    ensures *r == self.parameter_instances
%fn ExecutedTemplate::tag_instances ret=r
    ensures *r == self.tag_instances
%source constraint_generation/src/execution_data/executed_program.rs
%item ExecutedProgram
%fn ExecutedProgram::new ret=r
    ensures r.wf(), r.bwf(), r.model@.len() == 0, r.model_buses@.len() == 0, r.model_pretemplates@.len() == 0
%fn ExecutedProgram::identify_node ret=r
    requires self.wf()
    ensures r is Some ==> r->0 < self.model@.len() && inst_of(self.model@[r->0 as int], key(name@), context@, tag_context@),
        r is None ==> forall|i: int| 0 <= i < self.model@.len() ==> !inst_of(#[trigger] self.model@[i], key(name@), context@, tag_context@)
%loop 0
    invariant self.wf(), self.template_to_nodes@.contains_key(key(name@)), *related_nodes == self.template_to_nodes@[key(name@)],
        forall|j: int| 0 <= j < it_0.pos() ==> !inst_of(self.model@[#[trigger] related_nodes@[j] as int], key(name@), context@, tag_context@)
%at end
proof {
    assert forall|i: int| 0 <= i < self.model@.len() implies !inst_of(#[trigger] self.model@[i], key(name@), context@, tag_context@) by {
        if self.model@[i].template_name == key(name@) {
            assert(self.model@.len() == self.model.len());
            let l = self.template_to_nodes@[key(name@)]@;
            assert(l.contains(i as usize));
            let j = choose|j: int| 0 <= j < l.len() && l[j] == i as usize;
            assert(!inst_of(self.model@[related_nodes@[j] as int], key(name@), context@, tag_context@));
        }
    }
}
%fn ExecutedProgram::identify_bus_node ret=r
    requires self.bwf()
    ensures r is Some ==> r->0 < self.model_buses@.len() && bus_of(self.model_buses@[r->0 as int], key(name@), context@),
        r is None ==> forall|i: int| 0 <= i < self.model_buses@.len() ==> !bus_of(#[trigger] self.model_buses@[i], key(name@), context@)
%loop 0
    invariant self.bwf(), self.bus_to_nodes@.contains_key(key(name@)), *related_nodes == self.bus_to_nodes@[key(name@)],
        forall|j: int| 0 <= j < it_0.pos() ==> !bus_of(self.model_buses@[#[trigger] related_nodes@[j] as int], key(name@), context@)
%at end
proof {
    assert forall|i: int| 0 <= i < self.model_buses@.len() implies !bus_of(#[trigger] self.model_buses@[i], key(name@), context@) by {
        if self.model_buses@[i].bus_name == key(name@) {
            assert(self.model_buses@.len() == self.model_buses.len());
            let l = self.bus_to_nodes@[key(name@)]@;
            assert(l.contains(i as usize));
            let j = choose|j: int| 0 <= j < l.len() && l[j] == i as usize;
            assert(!bus_of(self.model_buses@[related_nodes@[j] as int], key(name@), context@));
        }
    }
}
%fn ExecutedProgram::get_node ret=r
    ensures r is Some == (node_pointer < self.model@.len()), r is Some ==> *r->0 == self.model@[node_pointer as int]
%fn ExecutedProgram::get_prenode ret=r
    ensures r is Some == (node_pointer < self.model_pretemplates@.len()), r is Some ==> *r->0 == self.model_pretemplates@[node_pointer as int]
%fn ExecutedProgram::get_bus_node ret=r
    ensures r is Some == (node_pointer < self.model_buses@.len()), r is Some ==> *r->0 == self.model_buses@[node_pointer as int]
%fn ExecutedProgram::add_prenode_to_scheme ret=r
    ensures final(self).model_pretemplates@ == old(self).model_pretemplates@.push(node), r == old(self).model_pretemplates@.len(),
        final(self).model == old(self).model, final(self).model_buses == old(self).model_buses,
        final(self).template_to_nodes == old(self).template_to_nodes, final(self).bus_to_nodes == old(self).bus_to_nodes
%fn ExecutedProgram::add_node_to_scheme ret=r
    requires old(self).wf()
    ensures final(self).wf(), r < final(self).model@.len(),
        old(self).model@.is_prefix_of(final(self).model@), final(self).model@.len() <= old(self).model@.len() + 1,
        final(self).model_buses == old(self).model_buses, final(self).bus_to_nodes == old(self).bus_to_nodes, final(self).model_pretemplates == old(self).model_pretemplates,
        (r < old(self).model@.len() && final(self).model == old(self).model && inst_of(old(self).model@[r as int], node.template_name, node.parameter_instances@, node.tag_instances@))
        || (r == old(self).model@.len() && final(self).model@.len() == r + 1 && same_but_code(final(self).model@[r as int], node)
            && forall|i: int| 0 <= i < r ==> !inst_of(#[trigger] old(self).model@[i], node.template_name, node.parameter_instances@, node.tag_instances@))
%at start
let ghost node0 = node;
%at end
proof {
    let on = old(self).template_to_nodes@; let fnn = self.template_to_nodes@; let nm = node0.template_name;
    let l0 = if on.contains_key(nm) { on[nm]@ } else { Seq::<usize>::empty() };
    lemma_push(l0, node_index);
    assert(fnn[nm]@ == l0.push(node_index));
    assert forall|n: VString| n != nm implies fnn.contains_key(n) == on.contains_key(n) && (on.contains_key(n) ==> #[trigger] fnn[n] == on[n]) by {}
    assert forall|n: VString, j: int| #![trigger fnn[n]@[j]] fnn.contains_key(n) && 0 <= j < fnn[n]@.len()
        implies fnn[n]@[j] < self.model@.len() && self.model@[fnn[n]@[j] as int].template_name == n by {
        if n == nm { if j < l0.len() { assert(on[n]@[j] == l0[j]); } } else { assert(fnn[n]@[j] == on[n]@[j]); }
    }
    assert forall|i: int| 0 <= i < self.model@.len() implies fnn.contains_key((#[trigger] self.model@[i]).template_name) && fnn[self.model@[i].template_name]@.contains(i as usize) by {
        if i < old(self).model@.len() {
            let q = old(self).model@[i].template_name;
            assert(on.contains_key(q) && on[q]@.contains(i as usize));
            if q == nm { assert(l0.contains(i as usize)); } else { assert(fnn[q] == on[q]); }
        }
    }
}
%fn ExecutedProgram::add_bus_node_to_scheme ret=r
    requires old(self).bwf()
    ensures final(self).bwf(), r < final(self).model_buses@.len(),
        old(self).model_buses@.is_prefix_of(final(self).model_buses@), final(self).model_buses@.len() <= old(self).model_buses@.len() + 1,
        final(self).model == old(self).model, final(self).template_to_nodes == old(self).template_to_nodes, final(self).model_pretemplates == old(self).model_pretemplates,
        (r < old(self).model_buses@.len() && final(self).model_buses == old(self).model_buses && bus_of(old(self).model_buses@[r as int], node.bus_name, node.parameter_instances@))
        || (r == old(self).model_buses@.len() && final(self).model_buses@.len() == r + 1 && final(self).model_buses@[r as int] == node
            && forall|i: int| 0 <= i < r ==> !bus_of(#[trigger] old(self).model_buses@[i], node.bus_name, node.parameter_instances@))
%at start
let ghost node0 = node;
%at end
proof {
    let on = old(self).bus_to_nodes@; let fnn = self.bus_to_nodes@; let nm = node0.bus_name;
    let l0 = if on.contains_key(nm) { on[nm]@ } else { Seq::<usize>::empty() };
    lemma_push(l0, node_index);
    assert(fnn[nm]@ == l0.push(node_index));
    assert forall|n: VString| n != nm implies fnn.contains_key(n) == on.contains_key(n) && (on.contains_key(n) ==> #[trigger] fnn[n] == on[n]) by {}
    assert forall|n: VString, j: int| #![trigger fnn[n]@[j]] fnn.contains_key(n) && 0 <= j < fnn[n]@.len()
        implies fnn[n]@[j] < self.model_buses@.len() && self.model_buses@[fnn[n]@[j] as int].bus_name == n by {
        if n == nm { if j < l0.len() { assert(on[n]@[j] == l0[j]); } } else { assert(fnn[n]@[j] == on[n]@[j]); }
    }
    assert forall|i: int| 0 <= i < self.model_buses@.len() implies fnn.contains_key((#[trigger] self.model_buses@[i]).bus_name) && fnn[self.model_buses@[i].bus_name]@.contains(i as usize) by {
        if i < old(self).model_buses@.len() {
            let q = old(self).model_buses@[i].bus_name;
            assert(on.contains_key(q) && on[q]@.contains(i as usize));
            if q == nm { assert(l0.contains(i as usize)); } else { assert(fnn[q] == on[q]); }
        }
    }
}

%mod execute
%source constraint_generation/src/execute.rs
%path String::new=VString::new
%path mem::replace=vreplace
%rename_method clone=vsclone
%rename_method to_string=vto_string
%rename_method iter=viter
%verbatim
use super::algebra::*;
use super::memory_slice::*;
use super::program::*;
broadcast use {axiom_key, axiom_key_view};
#[verifier::external_body]
pub struct ReportCollection { x: u8 }
#[verifier::external_body]
pub struct UsefulConstants { x: u8 }
#[verifier::external_body]
pub struct ExecutionEnvironment { x: u8 }
#[verifier::external_body]
pub struct AnonymousComponentsInfo { x: u8 }
#[verifier::external_body]
pub struct BusSlice { x: u8 }
#[verifier::external_body]
pub struct Meta { x: u8 }
#[verifier::external_body]
pub struct MemoryError { x: u8 }
pub type FileID = usize;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct FlagsExecution { x: u8 }
#[verifier::external_body]
pub struct TemplateData { x: u8 }
#[verifier::external_body]
pub struct BusDecl { x: u8 }
pub struct ProgramArchive { pub id_max: usize }
pub uninterp spec fn has_template(a: ProgramArchive, id: VString) -> bool;
pub uninterp spec fn tparams(a: ProgramArchive, id: VString) -> Seq<VString>;
pub uninterp spec fn bparams(a: ProgramArchive, id: VString) -> Seq<VString>;
pub uninterp spec fn td_params(t: TemplateData) -> Seq<VString>;
pub uninterp spec fn bd_params(t: BusDecl) -> Seq<VString>;
impl ProgramArchive {
    #[verifier::external_body] pub fn contains_template(&self, id: &str) -> (r: bool) ensures r == has_template(*self, key(id@)) { unimplemented!() }
    #[verifier::external_body] pub fn contains_bus(&self, id: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn get_template_data(&self, id: &str) -> (r: &TemplateData) ensures td_params(*r) == tparams(*self, key(id@)) { unimplemented!() }
    #[verifier::external_body] pub fn get_bus_data(&self, id: &str) -> (r: &BusDecl) ensures bd_params(*r) == bparams(*self, key(id@)) { unimplemented!() }
}
impl TemplateData {
    #[verifier::external_body] pub fn is_parallel(&self) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn is_custom_gate(&self) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn is_extern_c(&self) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn get_file_id(&self) -> FileID { unimplemented!() }
    #[verifier::external_body] pub fn get_body(&self) -> &Statement { unimplemented!() }
    #[verifier::external_body] pub fn get_body_as_vec(&self) -> &Vec<Statement> { unimplemented!() }
    #[verifier::external_body] pub fn get_name_of_params(&self) -> (r: &Vec<VString>) ensures r@ == td_params(*self) { unimplemented!() }
}
impl BusDecl {
    #[verifier::external_body] pub fn get_file_id(&self) -> FileID { unimplemented!() }
    #[verifier::external_body] pub fn get_body_as_vec(&self) -> &Vec<Statement> { unimplemented!() }
    #[verifier::external_body] pub fn get_name_of_params(&self) -> (r: &Vec<VString>) ensures r@ == bd_params(*self) { unimplemented!() }
}
impl Analysis { #[verifier::external_body] pub fn new(n: usize) -> Analysis { unimplemented!() } }
impl AnonymousComponentsInfo { #[verifier::external_body] pub fn new() -> AnonymousComponentsInfo { unimplemented!() } }
#[verifier::external_body]
pub fn vreplace<T>(m: &mut T, x: T) -> (r: T) ensures r == *old(m), *final(m) == x { unimplemented!() }
impl VString {
    #[verifier::external_body] pub fn push_str(&mut self, s: &str) { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, c: char) { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self) -> Option<char> { unimplemented!() }
}
pub trait VVecIter<T> { spec fn vvseq(&self) -> Seq<T>; fn viter<'a>(&'a self) -> (r: VIter<&'a T>) ensures r.pos() == 0, derefs(r.items()) == self.vvseq(); }
impl<T> VVecIter<T> for Vec<T> { open spec fn vvseq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn viter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() } }
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn zip<U>(self, o: Vec<U>) -> (r: VIter<(T, U)>)
        ensures r.pos() == 0, self.pos() == 0 ==> r.items().len() == (if self.items().len() <= o@.len() { self.items().len() } else { o@.len() })
            && forall|i: int| 0 <= i < r.items().len() ==> (#[trigger] r.items()[i]).0 == self.items()[i] && r.items()[i].1 == o@[i]
    { unimplemented!() }
}
impl VsClone for AExpressionSlice { #[verifier::external_body] fn vsclone(&self) -> (r: AExpressionSlice) { unimplemented!() } }
impl VsClone for Statement { #[verifier::external_body] fn vsclone(&self) -> (r: Statement) { unimplemented!() } }
impl VsClone for WireCollector { #[verifier::external_body] fn vsclone(&self) -> (r: WireCollector) { unimplemented!() } }
impl VsClone for Option<BigInt> { #[verifier::external_body] fn vsclone(&self) -> (r: Option<BigInt>) { unimplemented!() } }
impl<'a> VToString for &'a str { #[verifier::external_body] fn vto_string(&self) -> (r: VString) { unimplemented!() } }
// the first n parameters bound to the first n arguments
pub open spec fn pmapn(n: Seq<VString>, v: Seq<AExpressionSlice>, k: int) -> Params decreases k {
    if k <= 0 { Map::empty() } else { pmapn(n, v, k - 1).insert(n[k - 1], v[k - 1]) }
}
pub open spec fn pmap(n: Seq<VString>, v: Seq<AExpressionSlice>) -> Params { pmapn(n, v, if n.len() <= v.len() { n.len() as int } else { v.len() as int }) }
impl RuntimeInformation {
    pub open spec fn wf(&self) -> bool { self.exec_program.wf() && self.exec_program.bwf() }
    // everything compiled so far stays
    pub open spec fn grows(&self, o: &RuntimeInformation) -> bool {
        self.exec_program.model@.is_prefix_of(o.exec_program.model@) && self.exec_program.model_buses@.is_prefix_of(o.exec_program.model_buses@)
    }
}
pub open spec fn same_key(x: ExecutedTemplate, y: ExecutedTemplate) -> bool {
    x.template_name == y.template_name && x.parameter_instances == y.parameter_instances && x.tag_instances == y.tag_instances
}
// the node that the folded value points to is an instance of `id` with these arguments and tags,
// or was created by this call from exactly them
pub open spec fn node_for(t: ExecutedTemplate, id: VString, p: Params, g: Tags) -> bool {
    inst_of(t, id, p, g) || (t.template_name == id && t.parameter_instances@ == p && t.tag_instances@ == g)
}
pub open spec fn busnode_for(t: ExecutedBus, id: VString, p: Params) -> bool {
    bus_of(t, id, p) || (t.bus_name == id && t.parameter_instances@ == p)
}
// the interpreter (assumed: it adds instances with the functions above and does not rename the instance under construction)
#[verifier::external_body]
pub fn execute_sequence_of_statements(stmts: &Vec<Statement>, program_archive: &ProgramArchive, runtime: &mut RuntimeInformation,
    actual_node: &mut Option<ExecutedTemplate>, flags: FlagsExecution, is_complete_template: bool) -> (r: Result<(Option<FoldedValue>, bool), ()>)
    requires old(runtime).wf(), *old(actual_node) is Some
    ensures r is Ok ==> final(runtime).wf() && old(runtime).grows(final(runtime)) && *final(actual_node) is Some && same_key((*final(actual_node))->0, (*old(actual_node))->0)
{ unimplemented!() }
#[verifier::external_body]
pub fn execute_sequence_of_bus_statements(stmts: &Vec<Statement>, program_archive: &ProgramArchive, runtime: &mut RuntimeInformation,
    actual_node: &mut ExecutedBus, flags: FlagsExecution) -> (r: Result<(), ()>)
    requires old(runtime).wf()
    ensures r is Ok ==> final(runtime).wf() && old(runtime).grows(final(runtime)) && final(actual_node).bus_name == old(actual_node).bus_name
        && final(actual_node).parameter_instances == old(actual_node).parameter_instances
{ unimplemented!() }
#[verifier::external_body]
pub fn prepare_environment_for_call(id: &str, arg_values: &Vec<AExpressionSlice>, program_archive: &ProgramArchive) -> (r: ExecutionEnvironment) { unimplemented!() }
#[verifier::external_body]
pub fn environment_check_all_components_assigned(environment: &ExecutionEnvironment) -> (r: Result<(), (MemoryError, Meta)>) { unimplemented!() }
#[verifier::external_body]
pub fn treat_result_with_memory_error_void(e: Result<(), MemoryError>, meta: &Meta, runtime_errors: &mut ReportCollection, call_trace: &Vec<VString>) -> (r: Result<(), ()>) { unimplemented!() }
#[verifier::external_body]
pub fn environment_get_value_tags_bus(environment: &ExecutionEnvironment, name: &VString) -> (r: Vec<(Vec<VString>, BigInt)>) { unimplemented!() }
#[verifier::external_body]
pub fn environment_get_value_tags_signal(environment: &ExecutionEnvironment, name: &VString) -> (r: Vec<(Vec<VString>, BigInt)>) { unimplemented!() }
#[verifier::external_body]
pub struct InfoBusSliceNameVec { x: u8 }
%end
%item BlockType
%item RuntimeInformation
%item FoldedValue
%fn Default@FoldedValue::default ret=r trait_impl
    ensures r.node_pointer is None, r.bus_node_pointer is None, r.arithmetic_slice is None, r.bus_slice is None, r.is_parallel is None, r.tags is None
%fn execute_template_call ret=r
    requires old(runtime).wf()
    ensures r is Ok ==> final(runtime).wf() && old(runtime).grows(final(runtime)) && r->Ok_0.node_pointer is Some
        && r->Ok_0.node_pointer->0 < final(runtime).exec_program.model@.len()
        && node_for(final(runtime).exec_program.model@[r->Ok_0.node_pointer->0 as int], key(id@), pmap(tparams(*program_archive, key(id@)), parameter_values@), tag_values@)
%at start
let ghost names = tparams(*program_archive, key(id@)); let ghost vals = parameter_values@;
let ghost p = pmap(names, vals); let ghost tags = tag_values@;
%loop 0
    invariant args_to_values@ == pmapn(names, vals, it_0.pos()), args_names@ == names, it_0.items().len() == (if names.len() <= vals.len() { names.len() } else { vals.len() }),
        forall|i: int| 0 <= i < it_0.items().len() ==> *(#[trigger] it_0.items()[i]).0 == names[i] && it_0.items()[i].1 == vals[i]
%at post_loop 0
assert(args_to_values@ == p);
%loop 3
    invariant same_key(new_node, node1)
%loop 4
    invariant same_key(new_node, node1)
%at after_let new_node 0
let ghost node1 = new_node;
%fn execute_template_call_complete ret=r
    requires old(runtime).wf(), has_template(*program_archive, *id)
    ensures r is Ok ==> final(runtime).wf() && old(runtime).grows(final(runtime)) && r->Ok_0.node_pointer is Some
        && r->Ok_0.node_pointer->0 < final(runtime).exec_program.model@.len()
        && node_for(final(runtime).exec_program.model@[r->Ok_0.node_pointer->0 as int], *id, pmap(tparams(*program_archive, *id), arg_values@), tags@),
        // the caller's scope is restored
        r is Ok ==> final(runtime).environment == old(runtime).environment && final(runtime).current_file == old(runtime).current_file
            && final(runtime).block_type == old(runtime).block_type && final(runtime).anonymous_components == old(runtime).anonymous_components
%fn execute_bus_call ret=r
    requires old(runtime).wf()
    ensures r is Ok ==> final(runtime).wf() && old(runtime).grows(final(runtime)) && r->Ok_0.bus_node_pointer is Some
        && r->Ok_0.bus_node_pointer->0 < final(runtime).exec_program.model_buses@.len()
        && busnode_for(final(runtime).exec_program.model_buses@[r->Ok_0.bus_node_pointer->0 as int], key(id@), pmap(bparams(*program_archive, key(id@)), parameter_values@))
%at start
let ghost names = bparams(*program_archive, key(id@)); let ghost vals = parameter_values@;
let ghost p = pmap(names, vals);
%loop 0
    invariant args_to_values@ == pmapn(names, vals, it_0.pos()), args_names@ == names, it_0.items().len() == (if names.len() <= vals.len() { names.len() } else { vals.len() }),
        forall|i: int| 0 <= i < it_0.items().len() ==> *(#[trigger] it_0.items()[i]).0 == names[i] && it_0.items()[i].1 == vals[i]
%at post_loop 0
assert(args_to_values@ == p);
