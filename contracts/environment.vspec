%use ops.rs
%use iter.rs
%use maps.rs
%use vstring.rs
%rename_method to_string=vto_string
%mod environment
%source program_structure/src/utils/environment.rs
%ops off
%bound T =
%bound K =
%verbatim
use std::marker::PhantomData;
broadcast use axiom_key;
%end
%item CircomEnvironmentError
%item RawEnvironment bounds=T attr=verifier::reject_recursive_types(T)
%item VariableBlock
%verbatim
// index of the innermost block that binds k, -1 if none
pub open spec fn home<VC>(bs: Seq<VariableBlock<VC>>, k: VString) -> int decreases bs.len() {
    if bs.len() == 0 { -1 } else if bs.last().variables@.contains_key(k) { bs.len() - 1 } else { home(bs.drop_last(), k) }
}
pub proof fn lemma_home<VC>(bs: Seq<VariableBlock<VC>>, k: VString)
    ensures -1 <= home(bs, k) < bs.len(),
        home(bs, k) >= 0 ==> bs[home(bs, k)].variables@.contains_key(k),
        forall|i: int| home(bs, k) < i < bs.len() ==> !(#[trigger] bs[i]).variables@.contains_key(k)
    decreases bs.len()
{
    if bs.len() > 0 && !bs.last().variables@.contains_key(k) {
        lemma_home(bs.drop_last(), k);
        assert forall|i: int| home(bs, k) < i < bs.len() implies !(#[trigger] bs[i]).variables@.contains_key(k) by { if i < bs.len() - 1 { assert(bs.drop_last()[i] == bs[i]); } }
    }
}
pub proof fn lemma_home_is<VC>(bs: Seq<VariableBlock<VC>>, k: VString, h: int)
    requires -1 <= h < bs.len(), h >= 0 ==> bs[h].variables@.contains_key(k), forall|i: int| h < i < bs.len() ==> !(#[trigger] bs[i]).variables@.contains_key(k)
    ensures home(bs, k) == h
{
    lemma_home(bs, k);
    if home(bs, k) > h { assert(!bs[home(bs, k)].variables@.contains_key(k)); }
    if home(bs, k) < h { assert(!bs[h].variables@.contains_key(k)); }
}
impl<T, CC, SC, VC, BC> RawEnvironment<T, CC, SC, VC, BC> {
    // what a name denotes: the most recent binding in a block that is still open
    pub open spec fn lookup(&self, k: VString) -> Option<VC> {
        let h = home(self.variables@, k);
        if h < 0 { None } else { Some(self.variables@[h].variables@[k]) }
    }
    pub open spec fn blocks(&self) -> Seq<Map<VString, VC>> { Seq::new(self.variables@.len(), |i: int| self.variables@[i].variables@) }
    // `o` differs from self only in the variable blocks
    pub open spec fn same_signals(&self, o: &Self) -> bool {
        &&& self.signal_inputs == o.signal_inputs && self.signal_outputs == o.signal_outputs && self.signal_intermediates == o.signal_intermediates
        &&& self.bus_inputs == o.bus_inputs && self.bus_outputs == o.bus_outputs && self.bus_intermediates == o.bus_intermediates
        &&& self.components == o.components
    }
    pub open spec fn signal(&self, k: VString) -> Option<SC> {
        if self.signal_inputs@.contains_key(k) { Some(self.signal_inputs@[k]) } else if self.signal_outputs@.contains_key(k) { Some(self.signal_outputs@[k]) }
        else if self.signal_intermediates@.contains_key(k) { Some(self.signal_intermediates@[k]) } else { None }
    }
    pub open spec fn bus(&self, k: VString) -> Option<BC> {
        if self.bus_inputs@.contains_key(k) { Some(self.bus_inputs@[k]) } else if self.bus_outputs@.contains_key(k) { Some(self.bus_outputs@[k]) }
        else if self.bus_intermediates@.contains_key(k) { Some(self.bus_intermediates@[k]) } else { None }
    }
    pub open spec fn component(&self, k: VString) -> Option<CC> { if self.components@.contains_key(k) { Some(self.components@[k]) } else { None } }
}
// `use`d on the names bound on both sides, the one-sided bindings as they are
pub open spec fn joined<K, V>(l: Map<K, V>, r: Map<K, V>, f: Join<V>) -> Map<K, V> {
    Map::new(l.dom().union(r.dom()), |k: K| if l.contains_key(k) { if r.contains_key(k) { f.of(l[k], r[k]) } else { l[k] } } else { r[k] })
}
pub open spec fn over<K, V>(l: Map<K, V>, r: Map<K, V>) -> Map<K, V> { l.union_prefer_right(r) }
// stands for the function pointer that combines two values
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct Join<V> { f: fn(V, V) -> V }
impl<V> Copy for Join<V> {}
impl<V> Clone for Join<V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<V> Join<V> {
    pub uninterp spec fn of(&self, a: V, b: V) -> V;
    #[verifier::external_body]
    pub fn call(&self, a: V, b: V) -> (r: V) ensures r == self.of(a, b) { unimplemented!() }
}
%end
%fn Default@VariableBlock::default ret=r trait_impl
ensures r.variables@ == Map::<VString, VC>::empty()
%fn VariableBlock::new ret=r
ensures r.variables@ == Map::<VString, VC>::empty()
%fn VariableBlock::add_variable
ensures final(self).variables@ == old(self).variables@.insert(key(symbol@), content)
%fn VariableBlock::remove_variable
ensures final(self).variables@ == old(self).variables@.remove(key(symbol@))
%fn VariableBlock::contains_variable ret=r
ensures r == self.variables@.contains_key(key(symbol@))
%fn VariableBlock::get_variable ret=r
requires self.variables@.contains_key(key(symbol@))
ensures *r == self.variables@[key(symbol@)]
%fn VariableBlock::get_mut_variable ret=r
requires old(self).variables@.contains_key(key(symbol@))
ensures *r == old(self).variables@[key(symbol@)], final(self).variables@ == old(self).variables@.insert(key(symbol@), *final(r))
%fn hashmap_union ret=res
ensures res@ =~= joined(l@, r@, merge_function)
%subst merge_function: fn(V, V) -> V => merge_function: Join<V>
%subst merge_function(v => merge_function.call(v
%subst HashMap::new() => HashMap::<K, V>::new()
%at pre_loop 0
let ghost l0 = l@; let ghost r0 = r@;
proof { assert forall|k: K| !seen(Seq::<(K, V)>::empty(), 0, k) by {} }
%loop 0
    forall|k: K| #[trigger] result@.contains_key(k) == seen(it_0.items(), it_0.pos(), k),
    forall|k: K| #[trigger] result@.contains_key(k) ==> result@[k] == joined(l0, r0, merge_function)[k],
    forall|k: K| #[trigger] r@.contains_key(k) == (r0.contains_key(k) && !seen(it_0.items(), it_0.pos(), k)),
    forall|k: K| #[trigger] r@.contains_key(k) ==> r@[k] == r0[k],
    mapseq(it_0.items(), l0),
%at loop_start 0
proof { lemma_seen(it_0.items(), l0, it_0.pos() - 1); }
%at after_loop 0
proof { lemma_seen(it_0.items(), l0, it_0.pos()); }
%at pre_loop 1
let ghost r1 = r@; let ghost res1 = result@;
%loop 1
    forall|k: K| #[trigger] result@.contains_key(k) == (res1.contains_key(k) || seen(it_1.items(), it_1.pos(), k)),
    forall|k: K| #[trigger] res1.contains_key(k) ==> result@[k] == res1[k],
    forall|k: K| #[trigger] result@.contains_key(k) && !res1.contains_key(k) ==> result@[k] == r1[k],
    forall|k: K| #[trigger] r1.contains_key(k) ==> !res1.contains_key(k),
    mapseq(it_1.items(), r1),
%at loop_start 1
proof { lemma_seen(it_1.items(), r1, it_1.pos() - 1); }
%at after_loop 1
proof { lemma_seen(it_1.items(), r1, it_1.pos()); }
%fn VariableBlock::merge ret=res
ensures res.variables@ == joined(left.variables@, right.variables@, using)
%subst using: fn(VC, VC) -> VC => using: Join<VC>
%fn Default@RawEnvironment::default ret=r trait_impl
ensures r.blocks() =~= seq![Map::<VString, VC>::empty()], r.signal_inputs@ == Map::<VString, SC>::empty(), r.signal_outputs@ == Map::<VString, SC>::empty(), r.signal_intermediates@ == Map::<VString, SC>::empty(),
    r.bus_inputs@ == Map::<VString, BC>::empty(), r.bus_outputs@ == Map::<VString, BC>::empty(), r.bus_intermediates@ == Map::<VString, BC>::empty(), r.components@ == Map::<VString, CC>::empty()
%fn RawEnvironment::merge ret=res
requires left.variables@.len() == right.variables@.len()
ensures
    res.variables@.len() == left.variables@.len(),
    forall|i: int| 0 <= i < left.variables@.len() ==> (#[trigger] res.variables@[i]).variables@ == joined(left.variables@[i].variables@, right.variables@[i].variables@, using),
    res.signal_inputs@ == over(left.signal_inputs@, right.signal_inputs@), res.signal_outputs@ == over(left.signal_outputs@, right.signal_outputs@),
    res.signal_intermediates@ == over(left.signal_intermediates@, right.signal_intermediates@),
    res.bus_inputs@ == over(left.bus_inputs@, right.bus_inputs@), res.bus_outputs@ == over(left.bus_outputs@, right.bus_outputs@),
    res.bus_intermediates@ == over(left.bus_intermediates@, right.bus_intermediates@), res.components@ == over(left.components@, right.components@)
%subst using: fn(VC, VC) -> VC => using: Join<VC>
%subst let mut variables = Vec::new() => let mut variables = Vec::<VariableBlock<VC>>::new()
%at pre_loop 0
let ghost vl = variables_left@; let ghost vr = variables_right@;
%loop 0
    vl == left.variables@, vr == right.variables@,
    variables_left@.len() == variables_right@.len(), variables_left@.len() + variables@.len() == vl.len(), vl.len() == vr.len(),
    variables_left@ =~= vl.take(variables_left@.len() as int), variables_right@ =~= vr.take(variables_left@.len() as int),
    forall|i: int| 0 <= i < variables@.len() ==> (#[trigger] variables@[i]).variables@ == joined(vl[vl.len() - 1 - i].variables@, vr[vl.len() - 1 - i].variables@, using),
    decreases variables_left@.len()
%fn RawEnvironment::has_symbol ret=r
ensures r == (self.signal(key(symbol@)) is Some || self.bus(key(symbol@)) is Some || self.component(key(symbol@)) is Some || self.lookup(key(symbol@)) is Some)
%fn RawEnvironment::new ret=r
ensures r.blocks() =~= seq![Map::<VString, VC>::empty()], r.signal_inputs@ == Map::<VString, SC>::empty(), r.signal_outputs@ == Map::<VString, SC>::empty(), r.signal_intermediates@ == Map::<VString, SC>::empty(),
    r.bus_inputs@ == Map::<VString, BC>::empty(), r.bus_outputs@ == Map::<VString, BC>::empty(), r.bus_intermediates@ == Map::<VString, BC>::empty(), r.components@ == Map::<VString, CC>::empty()
%fn RawEnvironment::block_with_variable_symbol ret=r
ensures home(self.variables@, key(symbol@)) < 0 ==> r is None,
    home(self.variables@, key(symbol@)) >= 0 ==> r is Some && *r->0 == self.variables@[home(self.variables@, key(symbol@))] && r->0.variables@.contains_key(key(symbol@))
%loop 0
    act <= self.variables@.len(), *variables == self.variables, forall|i: int| act <= i < self.variables@.len() ==> !(#[trigger] self.variables@[i]).variables@.contains_key(key(symbol@)),
    decreases act
%at loop_start 0
proof { if self.variables@[act - 1].variables@.contains_key(key(symbol@)) { lemma_home_is(self.variables@, key(symbol@), act - 1); } }
%at after_loop 0
proof { lemma_home_is(self.variables@, key(symbol@), -1); }
%fn RawEnvironment::mut_block_with_variable_symbol ret=r
ensures
    final(self).same_signals(old(self)), final(self).variables@.len() == old(self).variables@.len(),
    home(old(self).variables@, key(symbol@)) < 0 ==> r is None && final(self).variables@ == old(self).variables@,
    home(old(self).variables@, key(symbol@)) >= 0 ==> {
        let h = home(old(self).variables@, key(symbol@));
        &&& r is Some && *r->0 == old(self).variables@[h] && r->0.variables@.contains_key(key(symbol@))
        &&& final(self).variables@ == old(self).variables@.update(h, *final(r->0))
    }
%loop 0
    act <= variables@.len(), variables@ == old(self).variables@, forall|i: int| act <= i < variables@.len() ==> !(#[trigger] variables@[i]).variables@.contains_key(key(symbol@)),
    decreases act
%at loop_start 0
proof { if variables@[act - 1].variables@.contains_key(key(symbol@)) { lemma_home_is(variables@, key(symbol@), act - 1); } }
%at after_loop 0
proof { lemma_home_is(variables@, key(symbol@), -1); }
%fn RawEnvironment::add_variable_block
ensures final(self).same_signals(old(self)), final(self).blocks() =~= old(self).blocks().push(Map::empty()),
    forall|k: VString| #[trigger] final(self).lookup(k) == old(self).lookup(k)
%at end
proof { assert(self.variables@.drop_last() =~= old(self).variables@); assert forall|k: VString| #[trigger] self.lookup(k) == old(self).lookup(k) by { lemma_home(old(self).variables@, k); } }
%fn RawEnvironment::remove_variable_block
requires old(self).variables@.len() > 0
ensures final(self).same_signals(old(self)), final(self).variables@ == old(self).variables@.drop_last(),
    forall|k: VString| !old(self).variables@.last().variables@.contains_key(k) ==> #[trigger] final(self).lookup(k) == old(self).lookup(k)
%at end
proof { assert forall|k: VString| !old(self).variables@.last().variables@.contains_key(k) implies #[trigger] self.lookup(k) == old(self).lookup(k) by { lemma_home(self.variables@, k); } }
%fn RawEnvironment::add_variable
requires old(self).variables@.len() > 0
ensures final(self).same_signals(old(self)), final(self).blocks() =~= old(self).blocks().drop_last().push(old(self).blocks().last().insert(key(variable_name@), content)),
    forall|k: VString| #[trigger] final(self).lookup(k) == (if k == key(variable_name@) { Some(content) } else { old(self).lookup(k) })
%at end
proof {
    assert(self.variables@.drop_last() =~= old(self).variables@.drop_last());
    assert forall|k: VString| #[trigger] self.lookup(k) == (if k == key(variable_name@) { Some(content) } else { old(self).lookup(k) }) by {
        lemma_home(old(self).variables@, k); lemma_home(self.variables@, k);
        let h = home(old(self).variables@, k);
        if h >= 0 && h < old(self).variables@.len() - 1 { assert(old(self).variables@[h] == old(self).variables@.drop_last()[h]); assert(self.variables@[h] == self.variables@.drop_last()[h]); }
    }
}
%fn RawEnvironment::has_variable ret=r
ensures r == (self.lookup(key(symbol@)) is Some)
%fn RawEnvironment::get_variable ret=r
ensures r is Some == self.lookup(key(symbol@)) is Some, r is Some ==> *r->0 == self.lookup(key(symbol@))->0
%fn RawEnvironment::get_variable_res ret=r
ensures r is Ok == self.lookup(key(symbol@)) is Some, r is Ok ==> *r->Ok_0 == self.lookup(key(symbol@))->0
%fn RawEnvironment::get_variable_or_break ret=r
requires self.lookup(key(symbol@)) is Some
ensures *r == self.lookup(key(symbol@))->0
%fn RawEnvironment::get_mut_variable ret=r
ensures final(self).same_signals(old(self)), r is Some == old(self).lookup(key(symbol@)) is Some,
    !(r is Some) ==> final(self).variables@ == old(self).variables@,
    r is Some ==> *r->0 == old(self).lookup(key(symbol@))->0
        && final(self).blocks() =~= old(self).blocks().update(home(old(self).variables@, key(symbol@)), old(self).blocks()[home(old(self).variables@, key(symbol@))].insert(key(symbol@), *final(r->0)))
%at start
proof { lemma_home(old(self).variables@, key(symbol@)); }
%fn RawEnvironment::get_mut_variable_mut ret=r
ensures final(self).same_signals(old(self)), r is Ok == old(self).lookup(key(symbol@)) is Some,
    !(r is Ok) ==> final(self).variables@ == old(self).variables@,
    r is Ok ==> *r->Ok_0 == old(self).lookup(key(symbol@))->0
        && final(self).blocks() =~= old(self).blocks().update(home(old(self).variables@, key(symbol@)), old(self).blocks()[home(old(self).variables@, key(symbol@))].insert(key(symbol@), *final(r->Ok_0)))
%at start
proof { lemma_home(old(self).variables@, key(symbol@)); }
%fn RawEnvironment::get_mut_variable_or_break ret=r
requires old(self).lookup(key(symbol@)) is Some
ensures final(self).same_signals(old(self)), *r == old(self).lookup(key(symbol@))->0,
    final(self).blocks() =~= old(self).blocks().update(home(old(self).variables@, key(symbol@)), old(self).blocks()[home(old(self).variables@, key(symbol@))].insert(key(symbol@), *final(r)))
%fn RawEnvironment::remove_variable
ensures final(self).same_signals(old(self)), old(self).lookup(key(symbol@)) is None ==> final(self).variables@ == old(self).variables@,
    old(self).lookup(key(symbol@)) is Some ==> final(self).blocks() =~= old(self).blocks().update(home(old(self).variables@, key(symbol@)), old(self).blocks()[home(old(self).variables@, key(symbol@))].remove(key(symbol@)))
%at start
proof { lemma_home(old(self).variables@, key(symbol@)); }
%fn RawEnvironment::add_component
ensures final(self).components@ == old(self).components@.insert(key(component_name@), content), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates
%fn RawEnvironment::remove_component
ensures final(self).components@ == old(self).components@.remove(key(component_name@)), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates
%fn RawEnvironment::has_component ret=r
ensures r == self.components@.contains_key(key(symbol@))
%fn RawEnvironment::get_component ret=r
ensures r is Some == self.components@.contains_key(key(symbol@)), r is Some ==> *r->0 == self.components@[key(symbol@)]
%fn RawEnvironment::get_component_res ret=r
ensures r is Ok == self.components@.contains_key(key(symbol@)), r is Ok ==> *r->Ok_0 == self.components@[key(symbol@)]
%fn RawEnvironment::get_component_or_break ret=r
requires self.components@.contains_key(key(symbol@))
ensures *r == self.components@[key(symbol@)]
%fn RawEnvironment::get_mut_component ret=r
ensures r is Some == old(self).components@.contains_key(key(symbol@)), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates,
    r is Some ==> *r->0 == old(self).components@[key(symbol@)] && final(self).components@ == old(self).components@.insert(key(symbol@), *final(r->0)),
    r is None ==> final(self).components@ == old(self).components@
%fn RawEnvironment::get_mut_component_res ret=r
ensures r is Ok == old(self).components@.contains_key(key(symbol@)), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates,
    r is Ok ==> *r->Ok_0 == old(self).components@[key(symbol@)] && final(self).components@ == old(self).components@.insert(key(symbol@), *final(r->Ok_0)),
    r is Err ==> final(self).components@ == old(self).components@
%fn RawEnvironment::get_mut_component_or_break ret=r
requires old(self).components@.contains_key(key(symbol@))
ensures *r == old(self).components@[key(symbol@)], final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components@ == old(self).components@.insert(key(symbol@), *final(r))
%fn RawEnvironment::add_input
ensures final(self).signal_inputs@ == old(self).signal_inputs@.insert(key(input_name@), content), final(self).variables == old(self).variables, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components
%fn RawEnvironment::remove_input
ensures final(self).signal_inputs@ == old(self).signal_inputs@.remove(key(input_name@)), final(self).variables == old(self).variables, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components
%fn RawEnvironment::has_input ret=r
ensures r == self.signal_inputs@.contains_key(key(symbol@))
%fn RawEnvironment::get_input ret=r
ensures r is Some == self.signal_inputs@.contains_key(key(symbol@)), r is Some ==> *r->0 == self.signal_inputs@[key(symbol@)]
%fn RawEnvironment::get_input_res ret=r
ensures r is Ok == self.signal_inputs@.contains_key(key(symbol@)), r is Ok ==> *r->Ok_0 == self.signal_inputs@[key(symbol@)]
%fn RawEnvironment::get_input_or_break ret=r
requires self.signal_inputs@.contains_key(key(symbol@))
ensures *r == self.signal_inputs@[key(symbol@)]
%fn RawEnvironment::get_mut_input ret=r
ensures r is Some == old(self).signal_inputs@.contains_key(key(symbol@)), final(self).variables == old(self).variables, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components,
    r is Some ==> *r->0 == old(self).signal_inputs@[key(symbol@)] && final(self).signal_inputs@ == old(self).signal_inputs@.insert(key(symbol@), *final(r->0)),
    r is None ==> final(self).signal_inputs@ == old(self).signal_inputs@
%fn RawEnvironment::get_mut_input_res ret=r
ensures r is Ok == old(self).signal_inputs@.contains_key(key(symbol@)), final(self).variables == old(self).variables, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components,
    r is Ok ==> *r->Ok_0 == old(self).signal_inputs@[key(symbol@)] && final(self).signal_inputs@ == old(self).signal_inputs@.insert(key(symbol@), *final(r->Ok_0)),
    r is Err ==> final(self).signal_inputs@ == old(self).signal_inputs@
%fn RawEnvironment::get_mut_input_or_break ret=r
requires old(self).signal_inputs@.contains_key(key(symbol@))
ensures *r == old(self).signal_inputs@[key(symbol@)], final(self).variables == old(self).variables, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components, final(self).signal_inputs@ == old(self).signal_inputs@.insert(key(symbol@), *final(r))
%fn RawEnvironment::add_output
ensures final(self).signal_outputs@ == old(self).signal_outputs@.insert(key(output_name@), content), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components
%fn RawEnvironment::remove_output
ensures final(self).signal_outputs@ == old(self).signal_outputs@.remove(key(output_name@)), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components
%fn RawEnvironment::has_output ret=r
ensures r == self.signal_outputs@.contains_key(key(symbol@))
%fn RawEnvironment::get_output ret=r
ensures r is Some == self.signal_outputs@.contains_key(key(symbol@)), r is Some ==> *r->0 == self.signal_outputs@[key(symbol@)]
%fn RawEnvironment::get_output_res ret=r
ensures r is Ok == self.signal_outputs@.contains_key(key(symbol@)), r is Ok ==> *r->Ok_0 == self.signal_outputs@[key(symbol@)]
%fn RawEnvironment::get_output_or_break ret=r
requires self.signal_outputs@.contains_key(key(symbol@))
ensures *r == self.signal_outputs@[key(symbol@)]
%fn RawEnvironment::get_mut_output ret=r
ensures r is Some == old(self).signal_outputs@.contains_key(key(symbol@)), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components,
    r is Some ==> *r->0 == old(self).signal_outputs@[key(symbol@)] && final(self).signal_outputs@ == old(self).signal_outputs@.insert(key(symbol@), *final(r->0)),
    r is None ==> final(self).signal_outputs@ == old(self).signal_outputs@
%fn RawEnvironment::get_mut_output_res ret=r
ensures r is Ok == old(self).signal_outputs@.contains_key(key(symbol@)), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components,
    r is Ok ==> *r->Ok_0 == old(self).signal_outputs@[key(symbol@)] && final(self).signal_outputs@ == old(self).signal_outputs@.insert(key(symbol@), *final(r->Ok_0)),
    r is Err ==> final(self).signal_outputs@ == old(self).signal_outputs@
%fn RawEnvironment::get_mut_output_or_break ret=r
requires old(self).signal_outputs@.contains_key(key(symbol@))
ensures *r == old(self).signal_outputs@[key(symbol@)], final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components, final(self).signal_outputs@ == old(self).signal_outputs@.insert(key(symbol@), *final(r))
%fn RawEnvironment::add_intermediate
ensures final(self).signal_intermediates@ == old(self).signal_intermediates@.insert(key(intermediate_name@), content), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components
%fn RawEnvironment::remove_intermediate
ensures final(self).signal_intermediates@ == old(self).signal_intermediates@.remove(key(intermediate_name@)), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components
%fn RawEnvironment::has_intermediate ret=r
ensures r == self.signal_intermediates@.contains_key(key(symbol@))
%fn RawEnvironment::get_intermediate ret=r
ensures r is Some == self.signal_intermediates@.contains_key(key(symbol@)), r is Some ==> *r->0 == self.signal_intermediates@[key(symbol@)]
%fn RawEnvironment::get_intermediate_res ret=r
ensures r is Ok == self.signal_intermediates@.contains_key(key(symbol@)), r is Ok ==> *r->Ok_0 == self.signal_intermediates@[key(symbol@)]
%fn RawEnvironment::get_intermediate_or_break ret=r
requires self.signal_intermediates@.contains_key(key(symbol@))
ensures *r == self.signal_intermediates@[key(symbol@)]
%fn RawEnvironment::get_mut_intermediate ret=r
ensures r is Some == old(self).signal_intermediates@.contains_key(key(symbol@)), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components,
    r is Some ==> *r->0 == old(self).signal_intermediates@[key(symbol@)] && final(self).signal_intermediates@ == old(self).signal_intermediates@.insert(key(symbol@), *final(r->0)),
    r is None ==> final(self).signal_intermediates@ == old(self).signal_intermediates@
%fn RawEnvironment::get_mut_intermediate_res ret=r
ensures r is Ok == old(self).signal_intermediates@.contains_key(key(symbol@)), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components,
    r is Ok ==> *r->Ok_0 == old(self).signal_intermediates@[key(symbol@)] && final(self).signal_intermediates@ == old(self).signal_intermediates@.insert(key(symbol@), *final(r->Ok_0)),
    r is Err ==> final(self).signal_intermediates@ == old(self).signal_intermediates@
%fn RawEnvironment::get_mut_intermediate_or_break ret=r
requires old(self).signal_intermediates@.contains_key(key(symbol@))
ensures *r == old(self).signal_intermediates@[key(symbol@)], final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components, final(self).signal_intermediates@ == old(self).signal_intermediates@.insert(key(symbol@), *final(r))
%fn RawEnvironment::has_signal ret=r
ensures r == (self.signal(key(symbol@)) is Some)
%fn RawEnvironment::get_signal ret=r
ensures r is Some == self.signal(key(symbol@)) is Some, r is Some ==> *r->0 == self.signal(key(symbol@))->0
%fn RawEnvironment::get_signal_res ret=r
ensures r is Ok == self.signal(key(symbol@)) is Some, r is Ok ==> *r->Ok_0 == self.signal(key(symbol@))->0
%fn RawEnvironment::get_signal_or_break ret=r
requires self.signal(key(symbol@)) is Some
ensures *r == self.signal(key(symbol@))->0
%fn RawEnvironment::get_mut_signal ret=r
ensures final(self).variables == old(self).variables, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components, r is Some == old(self).signal(key(symbol@)) is Some,
    r is None ==> final(self).signal_inputs@ == old(self).signal_inputs@ && final(self).signal_outputs@ == old(self).signal_outputs@ && final(self).signal_intermediates@ == old(self).signal_intermediates@,
    r is Some ==> *r->0 == old(self).signal(key(symbol@))->0
        && final(self).signal_inputs@ == (if old(self).signal_inputs@.contains_key(key(symbol@)) { old(self).signal_inputs@.insert(key(symbol@), *final(r->0)) } else { old(self).signal_inputs@ })
        && final(self).signal_outputs@ == (if !old(self).signal_inputs@.contains_key(key(symbol@)) && old(self).signal_outputs@.contains_key(key(symbol@)) { old(self).signal_outputs@.insert(key(symbol@), *final(r->0)) } else { old(self).signal_outputs@ })
        && final(self).signal_intermediates@ == (if !old(self).signal_inputs@.contains_key(key(symbol@)) && !old(self).signal_outputs@.contains_key(key(symbol@)) { old(self).signal_intermediates@.insert(key(symbol@), *final(r->0)) } else { old(self).signal_intermediates@ })
%fn RawEnvironment::get_mut_signal_res ret=r
ensures final(self).variables == old(self).variables, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components, r is Ok == old(self).signal(key(symbol@)) is Some,
    r is Err ==> final(self).signal_inputs@ == old(self).signal_inputs@ && final(self).signal_outputs@ == old(self).signal_outputs@ && final(self).signal_intermediates@ == old(self).signal_intermediates@,
    r is Ok ==> *r->Ok_0 == old(self).signal(key(symbol@))->0
        && final(self).signal_inputs@ == (if old(self).signal_inputs@.contains_key(key(symbol@)) { old(self).signal_inputs@.insert(key(symbol@), *final(r->Ok_0)) } else { old(self).signal_inputs@ })
        && final(self).signal_outputs@ == (if !old(self).signal_inputs@.contains_key(key(symbol@)) && old(self).signal_outputs@.contains_key(key(symbol@)) { old(self).signal_outputs@.insert(key(symbol@), *final(r->Ok_0)) } else { old(self).signal_outputs@ })
        && final(self).signal_intermediates@ == (if !old(self).signal_inputs@.contains_key(key(symbol@)) && !old(self).signal_outputs@.contains_key(key(symbol@)) { old(self).signal_intermediates@.insert(key(symbol@), *final(r->Ok_0)) } else { old(self).signal_intermediates@ })
%fn RawEnvironment::get_mut_signal_or_break ret=r
requires old(self).signal(key(symbol@)) is Some
ensures final(self).variables == old(self).variables, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components, *r == old(self).signal(key(symbol@))->0
        && final(self).signal_inputs@ == (if old(self).signal_inputs@.contains_key(key(symbol@)) { old(self).signal_inputs@.insert(key(symbol@), *final(r)) } else { old(self).signal_inputs@ })
        && final(self).signal_outputs@ == (if !old(self).signal_inputs@.contains_key(key(symbol@)) && old(self).signal_outputs@.contains_key(key(symbol@)) { old(self).signal_outputs@.insert(key(symbol@), *final(r)) } else { old(self).signal_outputs@ })
        && final(self).signal_intermediates@ == (if !old(self).signal_inputs@.contains_key(key(symbol@)) && !old(self).signal_outputs@.contains_key(key(symbol@)) { old(self).signal_intermediates@.insert(key(symbol@), *final(r)) } else { old(self).signal_intermediates@ })
%fn RawEnvironment::add_input_bus
ensures final(self).bus_inputs@ == old(self).bus_inputs@.insert(key(input_name@), content), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components
%fn RawEnvironment::remove_input_bus
ensures final(self).bus_inputs@ == old(self).bus_inputs@.remove(key(input_name@)), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components
%fn RawEnvironment::has_input_bus ret=r
ensures r == self.bus_inputs@.contains_key(key(symbol@))
%fn RawEnvironment::get_input_bus ret=r
ensures r is Some == self.bus_inputs@.contains_key(key(symbol@)), r is Some ==> *r->0 == self.bus_inputs@[key(symbol@)]
%fn RawEnvironment::get_input_bus_res ret=r
ensures r is Ok == self.bus_inputs@.contains_key(key(symbol@)), r is Ok ==> *r->Ok_0 == self.bus_inputs@[key(symbol@)]
%fn RawEnvironment::get_input_bus_or_break ret=r
requires self.bus_inputs@.contains_key(key(symbol@))
ensures *r == self.bus_inputs@[key(symbol@)]
%fn RawEnvironment::get_mut_input_bus ret=r
ensures r is Some == old(self).bus_inputs@.contains_key(key(symbol@)), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components,
    r is Some ==> *r->0 == old(self).bus_inputs@[key(symbol@)] && final(self).bus_inputs@ == old(self).bus_inputs@.insert(key(symbol@), *final(r->0)),
    r is None ==> final(self).bus_inputs@ == old(self).bus_inputs@
%fn RawEnvironment::get_mut_input_bus_res ret=r
ensures r is Ok == old(self).bus_inputs@.contains_key(key(symbol@)), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components,
    r is Ok ==> *r->Ok_0 == old(self).bus_inputs@[key(symbol@)] && final(self).bus_inputs@ == old(self).bus_inputs@.insert(key(symbol@), *final(r->Ok_0)),
    r is Err ==> final(self).bus_inputs@ == old(self).bus_inputs@
%fn RawEnvironment::get_mut_input_bus_or_break ret=r
requires old(self).bus_inputs@.contains_key(key(symbol@))
ensures *r == old(self).bus_inputs@[key(symbol@)], final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_outputs == old(self).bus_outputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components, final(self).bus_inputs@ == old(self).bus_inputs@.insert(key(symbol@), *final(r))
%fn RawEnvironment::add_output_bus
ensures final(self).bus_outputs@ == old(self).bus_outputs@.insert(key(output_name@), content), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components
%fn RawEnvironment::remove_output_bus
ensures final(self).bus_outputs@ == old(self).bus_outputs@.remove(key(output_name@)), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components
%fn RawEnvironment::has_output_bus ret=r
ensures r == self.bus_outputs@.contains_key(key(symbol@))
%fn RawEnvironment::get_output_bus ret=r
ensures r is Some == self.bus_outputs@.contains_key(key(symbol@)), r is Some ==> *r->0 == self.bus_outputs@[key(symbol@)]
%fn RawEnvironment::get_output_bus_res ret=r
ensures r is Ok == self.bus_outputs@.contains_key(key(symbol@)), r is Ok ==> *r->Ok_0 == self.bus_outputs@[key(symbol@)]
%fn RawEnvironment::get_output_bus_or_break ret=r
requires self.bus_outputs@.contains_key(key(symbol@))
ensures *r == self.bus_outputs@[key(symbol@)]
%fn RawEnvironment::get_mut_output_bus ret=r
ensures r is Some == old(self).bus_outputs@.contains_key(key(symbol@)), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components,
    r is Some ==> *r->0 == old(self).bus_outputs@[key(symbol@)] && final(self).bus_outputs@ == old(self).bus_outputs@.insert(key(symbol@), *final(r->0)),
    r is None ==> final(self).bus_outputs@ == old(self).bus_outputs@
%fn RawEnvironment::get_mut_output_bus_res ret=r
ensures r is Ok == old(self).bus_outputs@.contains_key(key(symbol@)), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components,
    r is Ok ==> *r->Ok_0 == old(self).bus_outputs@[key(symbol@)] && final(self).bus_outputs@ == old(self).bus_outputs@.insert(key(symbol@), *final(r->Ok_0)),
    r is Err ==> final(self).bus_outputs@ == old(self).bus_outputs@
%fn RawEnvironment::get_mut_output_bus_or_break ret=r
requires old(self).bus_outputs@.contains_key(key(symbol@))
ensures *r == old(self).bus_outputs@[key(symbol@)], final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_intermediates == old(self).bus_intermediates, final(self).components == old(self).components, final(self).bus_outputs@ == old(self).bus_outputs@.insert(key(symbol@), *final(r))
%fn RawEnvironment::add_intermediate_bus
ensures final(self).bus_intermediates@ == old(self).bus_intermediates@.insert(key(intermediate_name@), content), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).components == old(self).components
%fn RawEnvironment::remove_intermediate_bus
ensures final(self).bus_intermediates@ == old(self).bus_intermediates@.remove(key(intermediate_name@)), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).components == old(self).components
%fn RawEnvironment::has_intermediate_bus ret=r
ensures r == self.bus_intermediates@.contains_key(key(symbol@))
%fn RawEnvironment::get_intermediate_bus ret=r
ensures r is Some == self.bus_intermediates@.contains_key(key(symbol@)), r is Some ==> *r->0 == self.bus_intermediates@[key(symbol@)]
%fn RawEnvironment::get_intermediate_bus_res ret=r
ensures r is Ok == self.bus_intermediates@.contains_key(key(symbol@)), r is Ok ==> *r->Ok_0 == self.bus_intermediates@[key(symbol@)]
%fn RawEnvironment::get_intermediate_bus_or_break ret=r
requires self.bus_intermediates@.contains_key(key(symbol@))
ensures *r == self.bus_intermediates@[key(symbol@)]
%fn RawEnvironment::get_mut_intermediate_bus ret=r
ensures r is Some == old(self).bus_intermediates@.contains_key(key(symbol@)), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).components == old(self).components,
    r is Some ==> *r->0 == old(self).bus_intermediates@[key(symbol@)] && final(self).bus_intermediates@ == old(self).bus_intermediates@.insert(key(symbol@), *final(r->0)),
    r is None ==> final(self).bus_intermediates@ == old(self).bus_intermediates@
%fn RawEnvironment::get_mut_intermediate_bus_res ret=r
ensures r is Ok == old(self).bus_intermediates@.contains_key(key(symbol@)), final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).components == old(self).components,
    r is Ok ==> *r->Ok_0 == old(self).bus_intermediates@[key(symbol@)] && final(self).bus_intermediates@ == old(self).bus_intermediates@.insert(key(symbol@), *final(r->Ok_0)),
    r is Err ==> final(self).bus_intermediates@ == old(self).bus_intermediates@
%fn RawEnvironment::get_mut_intermediate_bus_or_break ret=r
requires old(self).bus_intermediates@.contains_key(key(symbol@))
ensures *r == old(self).bus_intermediates@[key(symbol@)], final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).bus_inputs == old(self).bus_inputs, final(self).bus_outputs == old(self).bus_outputs, final(self).components == old(self).components, final(self).bus_intermediates@ == old(self).bus_intermediates@.insert(key(symbol@), *final(r))
%fn RawEnvironment::has_bus ret=r
ensures r == (self.bus(key(symbol@)) is Some)
%fn RawEnvironment::get_bus ret=r
ensures r is Some == self.bus(key(symbol@)) is Some, r is Some ==> *r->0 == self.bus(key(symbol@))->0
%fn RawEnvironment::get_bus_res ret=r
ensures r is Ok == self.bus(key(symbol@)) is Some, r is Ok ==> *r->Ok_0 == self.bus(key(symbol@))->0
%fn RawEnvironment::get_bus_or_break ret=r
requires self.bus(key(symbol@)) is Some
ensures *r == self.bus(key(symbol@))->0
%fn RawEnvironment::get_mut_bus ret=r
ensures final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).components == old(self).components, r is Some == old(self).bus(key(symbol@)) is Some,
    r is None ==> final(self).bus_inputs@ == old(self).bus_inputs@ && final(self).bus_outputs@ == old(self).bus_outputs@ && final(self).bus_intermediates@ == old(self).bus_intermediates@,
    r is Some ==> *r->0 == old(self).bus(key(symbol@))->0
        && final(self).bus_inputs@ == (if old(self).bus_inputs@.contains_key(key(symbol@)) { old(self).bus_inputs@.insert(key(symbol@), *final(r->0)) } else { old(self).bus_inputs@ })
        && final(self).bus_outputs@ == (if !old(self).bus_inputs@.contains_key(key(symbol@)) && old(self).bus_outputs@.contains_key(key(symbol@)) { old(self).bus_outputs@.insert(key(symbol@), *final(r->0)) } else { old(self).bus_outputs@ })
        && final(self).bus_intermediates@ == (if !old(self).bus_inputs@.contains_key(key(symbol@)) && !old(self).bus_outputs@.contains_key(key(symbol@)) { old(self).bus_intermediates@.insert(key(symbol@), *final(r->0)) } else { old(self).bus_intermediates@ })
%fn RawEnvironment::get_mut_bus_res ret=r
ensures final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).components == old(self).components, r is Ok == old(self).bus(key(symbol@)) is Some,
    r is Err ==> final(self).bus_inputs@ == old(self).bus_inputs@ && final(self).bus_outputs@ == old(self).bus_outputs@ && final(self).bus_intermediates@ == old(self).bus_intermediates@,
    r is Ok ==> *r->Ok_0 == old(self).bus(key(symbol@))->0
        && final(self).bus_inputs@ == (if old(self).bus_inputs@.contains_key(key(symbol@)) { old(self).bus_inputs@.insert(key(symbol@), *final(r->Ok_0)) } else { old(self).bus_inputs@ })
        && final(self).bus_outputs@ == (if !old(self).bus_inputs@.contains_key(key(symbol@)) && old(self).bus_outputs@.contains_key(key(symbol@)) { old(self).bus_outputs@.insert(key(symbol@), *final(r->Ok_0)) } else { old(self).bus_outputs@ })
        && final(self).bus_intermediates@ == (if !old(self).bus_inputs@.contains_key(key(symbol@)) && !old(self).bus_outputs@.contains_key(key(symbol@)) { old(self).bus_intermediates@.insert(key(symbol@), *final(r->Ok_0)) } else { old(self).bus_intermediates@ })
%fn RawEnvironment::get_mut_bus_or_break ret=r
requires old(self).bus(key(symbol@)) is Some
ensures final(self).variables == old(self).variables, final(self).signal_inputs == old(self).signal_inputs, final(self).signal_outputs == old(self).signal_outputs, final(self).signal_intermediates == old(self).signal_intermediates, final(self).components == old(self).components, *r == old(self).bus(key(symbol@))->0
        && final(self).bus_inputs@ == (if old(self).bus_inputs@.contains_key(key(symbol@)) { old(self).bus_inputs@.insert(key(symbol@), *final(r)) } else { old(self).bus_inputs@ })
        && final(self).bus_outputs@ == (if !old(self).bus_inputs@.contains_key(key(symbol@)) && old(self).bus_outputs@.contains_key(key(symbol@)) { old(self).bus_outputs@.insert(key(symbol@), *final(r)) } else { old(self).bus_outputs@ })
        && final(self).bus_intermediates@ == (if !old(self).bus_inputs@.contains_key(key(symbol@)) && !old(self).bus_outputs@.contains_key(key(symbol@)) { old(self).bus_intermediates@.insert(key(symbol@), *final(r)) } else { old(self).bus_intermediates@ })
%end
