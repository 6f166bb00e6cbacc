%use ops.rs
%use bigint.rs
%use std.rs
%use iter.rs
%use maps.rs
%use vstring.rs
%use field.rs
%use bytes.rs
%use file.rs
%use wat.rs
%slices on
%fmt on
%path std::cmp::max=vmax
%rename_method as_bytes=vstrbytes
%rename_method to_string=vto_string
%rename_method repeat=vrepeat
%rename_method parse=vparse
%rename_method to_be_bytes=vbe
%rename_method reverse=vreverse
%rename_method to_vec=vto_vec
%mod comp
%source code_producers/src/components/mod.rs
%item IODef
%item InputInfo derives=Clone
%item FieldData
%item FieldMap
%item InputList
%item TemplateList
%item SignalList
%item InputOutputList
%item TemplateInstanceIOMap
%item MessageList
%item InfoTemplate
%item TemplateListInfo
%verbatim
// FNV-1a with the standard 64-bit offset basis: what calcwit.cpp and witness_calculator.js compute
pub open spec fn fnv(s: Seq<char>) -> u64 { fnv1a(0xcbf29ce484222325, utf8(s)) }
%end
%fn hasher ret=r
ensures r == fnv(value@)
%mod prod
%verbatim
use super::comp::*;
%end
%source code_producers/src/wasm_elements/mod.rs
%item WasmInstruction
%item WASMProducer
%verbatim
broadcast use {lemma_np2};
pub type IOMap = Map<usize, Vec<IODef>>;
pub open spec fn pmin(a: int, b: int) -> int { if a < b { a } else { b } }
// records: offset in memory, dimensions but the first and size (arrays), bus
pub open spec fn tail_words(l: Seq<usize>, n: int) -> Seq<int> decreases n { if n <= 1 { Seq::empty() } else { tail_words(l, n - 1).push(l[n - 1] as int) } }
pub open spec fn record(offset: int, l: Seq<usize>, size: int, bus: Option<usize>) -> Seq<int> {
    seq![offset] + (if l.len() > 0 { tail_words(l, l.len() as int).push(size) } else { Seq::empty() }) + (match bus { Some(b) => seq![b as int], None => Seq::empty() })
}
pub open spec fn rec_len(l: Seq<usize>, bus: Option<usize>) -> int { 1 + (if l.len() > 0 { l.len() as int } else { 0 }) + (if bus is Some { 1int } else { 0 }) }
pub proof fn lemma_tail_words(l: Seq<usize>, n: int) ensures tail_words(l, n).len() == (if n <= 1 { 0 } else { n - 1 }) decreases n { if n > 1 { lemma_tail_words(l, n - 1); } }
pub proof fn lemma_rec_len(o: int, l: Seq<usize>, s: int, b: Option<usize>) ensures record(o, l, s, b).len() == rec_len(l, b) { lemma_tail_words(l, l.len() as int); }
pub open spec fn io_len(v: Seq<IODef>, k: int) -> int decreases k { if k <= 0 { 0 } else { io_len(v, k - 1) + rec_len(v[k - 1].lengths@, v[k - 1].bus_id) } }
// records and words of the instances before c
pub open spec fn io_count(m: IOMap, c: int) -> int decreases c { if c <= 0 { 0 } else { io_count(m, c - 1) + (if m.contains_key((c - 1) as usize) { m[(c - 1) as usize]@.len() as int } else { 0 }) } }
pub open spec fn io_words(m: IOMap, c: int) -> int decreases c { if c <= 0 { 0 } else { io_words(m, c - 1) + (if m.contains_key((c - 1) as usize) { io_len(m[(c - 1) as usize]@, m[(c - 1) as usize]@.len() as int) } else { 0 }) } }
pub open spec fn bus_len(v: Seq<FieldData>, k: int) -> int decreases k { if k <= 0 { 0 } else { bus_len(v, k - 1) + rec_len(v[k - 1].dimensions@, v[k - 1].bus_id) } }
pub open spec fn bus_count(m: Seq<Vec<FieldData>>, c: int) -> int decreases c { if c <= 0 { 0 } else { bus_count(m, c - 1) + m[c - 1]@.len() } }
pub open spec fn bus_words(m: Seq<Vec<FieldData>>, c: int) -> int decreases c { if c <= 0 { 0 } else { bus_words(m, c - 1) + bus_len(m[c - 1]@, m[c - 1]@.len() as int) } }
// layout of the memory
pub open spec fn n_slots(l: int) -> int { slots(l) }
pub open spec fn a_prime(p: WASMProducer) -> int { 4 + p.fr_memory_size }
pub open spec fn a_shared(p: WASMProducer) -> int { a_prime(p) + 4 * p.size_32_bit + 8 }
pub open spec fn a_hash(p: WASMProducer) -> int { a_shared(p) + 4 * p.size_32_bit + 8 }
pub open spec fn a_remaining(p: WASMProducer) -> int { a_hash(p) + 16 * n_slots(p.main_input_list@.len() as int) }
pub open spec fn a_set(p: WASMProducer) -> int { a_remaining(p) + 4 }
pub open spec fn a_witness(p: WASMProducer) -> int { a_set(p) + 4 * p.number_of_main_inputs }
pub open spec fn a_sfree(p: WASMProducer) -> int { a_witness(p) + 4 * p.signals_in_witness }
pub open spec fn a_signals(p: WASMProducer) -> int { a_sfree(p) + 4 }
pub open spec fn a_cfree(p: WASMProducer) -> int { a_signals(p) + (2 + p.size_32_bit) * (4 * p.total_number_of_signals) }
pub open spec fn a_tree(p: WASMProducer) -> int { a_cfree(p) + 4 }
pub open spec fn a_inst(p: WASMProducer) -> int { a_tree(p) + 4 * p.size_of_component_tree }
pub open spec fn n_inst(p: WASMProducer) -> int { p.template_instance_list@.len() as int }
pub open spec fn a_ioptr(p: WASMProducer) -> int { a_inst(p) + 4 * n_inst(p) }
pub open spec fn a_io(p: WASMProducer) -> int { a_ioptr(p) + 4 * io_count(p.io_map@, n_inst(p)) }
pub open spec fn n_bus(p: WASMProducer) -> int { p.num_of_bus_instances as int }
pub open spec fn a_bus(p: WASMProducer) -> int { a_io(p) + 4 * io_words(p.io_map@, n_inst(p)) }
pub open spec fn a_fieldptr(p: WASMProducer) -> int { a_bus(p) + 4 * n_bus(p) }
pub open spec fn a_field(p: WASMProducer) -> int { a_fieldptr(p) + 4 * bus_count(p.busid_field_info@, n_bus(p)) }
pub open spec fn a_mcount(p: WASMProducer) -> int { a_field(p) + 4 * bus_words(p.busid_field_info@, n_bus(p)) }
pub open spec fn a_mbuf(p: WASMProducer) -> int { a_mcount(p) + 4 }
pub open spec fn a_messages(p: WASMProducer) -> int { a_mbuf(p) + p.size_of_message_buffer_in_bytes }
pub open spec fn a_strings(p: WASMProducer) -> int { a_messages(p) + p.size_of_message_in_bytes * p.message_list@.len() }
pub open spec fn a_consts(p: WASMProducer) -> int { a_strings(p) + p.size_of_message_in_bytes * p.string_table@.len() }
pub open spec fn a_stack(p: WASMProducer) -> int { a_consts(p) + (p.size_32_bit + 2) * 4 * p.field_tracking@.len() }
// what the compiler hands over: every instance has an entry below the number of instances, everything lies below 4 GB
pub open spec fn pok(p: WASMProducer) -> bool {
    &&& a_stack(p) < 0x1_0000_0000
    &&& n_bus(p) == p.busid_field_info@.len()
    &&& forall|k: usize| #[trigger] p.io_map@.contains_key(k) ==> k < n_inst(p)
    &&& p.size_32_bit < 0x100_0000 && p.total_number_of_signals < 0x1_0000_0000 && p.size_of_message_in_bytes > 0 && p.size_of_message_in_bytes < 0x100_0000
}
pub proof fn lemma_io_pos(m: IOMap, c: int) ensures io_count(m, c) >= 0, io_words(m, c) >= 0 decreases c { if c > 0 { lemma_io_pos(m, c - 1); if m.contains_key((c - 1) as usize) { lemma_io_len(m[(c - 1) as usize]@, m[(c - 1) as usize]@.len() as int); } } }
pub proof fn lemma_io_len(v: Seq<IODef>, k: int) ensures io_len(v, k) >= 0, k >= 0 ==> io_len(v, k) >= k decreases k { if k > 0 { lemma_io_len(v, k - 1); } }
pub proof fn lemma_bus_pos(m: Seq<Vec<FieldData>>, c: int) ensures bus_count(m, c) >= 0, bus_words(m, c) >= 0 decreases c { if c > 0 { lemma_bus_pos(m, c - 1); lemma_bus_len(m[c - 1]@, m[c - 1]@.len() as int); } }
pub proof fn lemma_bus_len(v: Seq<FieldData>, k: int) ensures bus_len(v, k) >= 0, k >= 0 ==> bus_len(v, k) >= k decreases k { if k > 0 { lemma_bus_len(v, k - 1); } }
// keys in order
pub open spec fn after_key(ks: Seq<usize>, i: int) -> int { if i <= 0 { 0 } else { ks[i - 1] + 1 } }
pub proof fn lemma_gap(m: IOMap, a: int, b: int) requires 0 <= a <= b <= usize::MAX, forall|k: usize| a <= k < b ==> !#[trigger] m.contains_key(k) ensures io_count(m, b) == io_count(m, a), io_words(m, b) == io_words(m, a) decreases b - a
{ if a < b { lemma_gap(m, a, b - 1); assert(!m.contains_key((b - 1) as usize)); } }
pub proof fn lemma_gap_key(m: IOMap, n: int, i: int) requires 0 <= n <= usize::MAX, forall|k: usize| #[trigger] m.contains_key(k) ==> k < n, 0 <= i <= bt_keys(m.dom()).len()
    ensures ({ let ks = bt_keys(m.dom()); let b = if i < ks.len() { ks[i] as int } else { n }; after_key(ks, i) <= b && io_count(m, b) == io_count(m, after_key(ks, i)) && io_words(m, b) == io_words(m, after_key(ks, i))
        && (i < ks.len() ==> m.contains_key(ks[i]) && b < n && io_count(m, b + 1) == io_count(m, b) + m[ks[i]]@.len() && io_words(m, b + 1) == io_words(m, b) + io_len(m[ks[i]]@, m[ks[i]]@.len() as int)) })
{
    let ks = bt_keys(m.dom());
    axiom_bt_keys(m.dom()); axiom_bt_usize(m.dom());
    let b = if i < ks.len() { ks[i] as int } else { n };
    if i < ks.len() { assert(ks.to_set().contains(ks[i])); assert(m.dom().contains(ks[i])); assert((b + 1 - 1) as usize == ks[i]); }
    if i > 0 { assert(ks.to_set().contains(ks[i - 1])); assert(m.contains_key(ks[i - 1])); }
    assert forall|k: usize| after_key(ks, i) <= k < b implies !#[trigger] m.contains_key(k) by {
        if m.contains_key(k) { assert(m.dom().contains(k)); assert(ks.to_set().contains(k)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k; if j < i { if j < i - 1 { assert(ks[j] < ks[i - 1]); } } else if j > i { assert(ks[i] < ks[j]); } }
    }
    lemma_gap(m, after_key(ks, i), b);
}
pub proof fn lemma_io_mono(m: IOMap, a: int, b: int) requires 0 <= a <= b ensures io_count(m, a) <= io_count(m, b), io_words(m, a) <= io_words(m, b) decreases b - a
{ if a < b { lemma_io_mono(m, a, b - 1); lemma_io_pos(m, b); if m.contains_key((b - 1) as usize) { lemma_io_len(m[(b - 1) as usize]@, m[(b - 1) as usize]@.len() as int); } } }
pub proof fn lemma_len_mono(v: Seq<IODef>, a: int, b: int) requires 0 <= a <= b ensures io_len(v, a) <= io_len(v, b) decreases b - a { if a < b { lemma_len_mono(v, a, b - 1); } }
pub proof fn lemma_bus_mono(m: Seq<Vec<FieldData>>, a: int, b: int) requires 0 <= a <= b ensures bus_count(m, a) <= bus_count(m, b), bus_words(m, a) <= bus_words(m, b) decreases b - a
{ if a < b { lemma_bus_mono(m, a, b - 1); lemma_bus_len(m[b - 1]@, m[b - 1]@.len() as int); } }
pub proof fn lemma_fbus_mono(v: Seq<FieldData>, a: int, b: int) requires 0 <= a <= b ensures bus_len(v, a) <= bus_len(v, b) decreases b - a { if a < b { lemma_fbus_mono(v, a, b - 1); } }
pub proof fn lemma_addr(p: WASMProducer) requires pok(p)
    ensures 0 <= a_prime(p) <= a_shared(p) <= a_hash(p) <= a_remaining(p) <= a_set(p) <= a_witness(p) <= a_sfree(p) <= a_signals(p) <= a_cfree(p) <= a_tree(p) <= a_inst(p) <= a_ioptr(p) <= a_io(p) <= a_bus(p) <= a_fieldptr(p) <= a_field(p) <= a_mcount(p) <= a_mbuf(p) <= a_messages(p) <= a_strings(p) <= a_consts(p) <= a_stack(p) < 0x1_0000_0000,
        0 <= (2 + p.size_32_bit) * (4 * p.total_number_of_signals), 0 <= p.size_of_message_in_bytes * p.message_list@.len(), 0 <= p.size_of_message_in_bytes * p.string_table@.len(), 0 <= (p.size_32_bit + 2) * 4 * p.field_tracking@.len(),
{
    lemma_io_pos(p.io_map@, n_inst(p)); lemma_bus_pos(p.busid_field_info@, n_bus(p));
    assert(0 <= (2 + p.size_32_bit) * (4 * p.total_number_of_signals)) by (nonlinear_arith);
    assert(0 <= p.size_of_message_in_bytes * p.message_list@.len()) by (nonlinear_arith);
    assert(0 <= p.size_of_message_in_bytes * p.string_table@.len()) by (nonlinear_arith);
    assert(0 <= (p.size_32_bit + 2) * 4 * p.field_tracking@.len()) by (nonlinear_arith);
}
%end
%fn WASMProducer::get_prime ret=r
ensures r@ == self.prime@
%fn WASMProducer::get_number_of_main_inputs ret=r
ensures r == self.number_of_main_inputs
%fn WASMProducer::get_main_input_list ret=r
ensures *r == self.main_input_list
%fn WASMProducer::get_number_of_witness ret=r
ensures r == self.signals_in_witness
%fn WASMProducer::get_witness_to_signal_list ret=r
ensures *r == self.witness_to_signal_list
%fn WASMProducer::get_total_number_of_signals ret=r
ensures r == self.total_number_of_signals
%fn WASMProducer::get_size_of_component_tree ret=r
ensures r == self.size_of_component_tree
%fn WASMProducer::get_size_of_message_in_bytes ret=r
ensures r == self.size_of_message_in_bytes
%fn WASMProducer::get_size_32_bit ret=r
ensures r == self.size_32_bit
%fn WASMProducer::get_io_map ret=r
ensures *r == self.io_map
%fn WASMProducer::get_number_of_template_instances ret=r
ensures r == n_inst(*self)
%fn WASMProducer::get_number_of_bus_instances ret=r
ensures r == self.num_of_bus_instances
%fn WASMProducer::get_busid_field_info ret=r
ensures *r == self.busid_field_info
%fn WASMProducer::get_message_list ret=r
ensures *r == self.message_list
%fn WASMProducer::get_field_constant_list ret=r
ensures *r == self.field_tracking
%fn WASMProducer::get_string_table ret=r
ensures *r == self.string_table
%fn WASMProducer::get_size_32_bits_in_memory ret=r
requires self.size_32_bit < 0x100_0000
ensures r == self.size_32_bit + 2
%fn WASMProducer::get_input_hash_map_entry_size ret=r
requires self.main_input_list@.len() <= 0x8000_0000
ensures r == n_slots(self.main_input_list@.len() as int)
%fn WASMProducer::get_number_of_io_signals ret=r
requires pok(*self)
ensures r == io_count(self.io_map@, n_inst(*self))
%at pre_loop 0
let ghost m = self.io_map@; let ghost ks = bt_keys(m.dom());
proof { lemma_addr(*self); lemma_gap_key(m, n_inst(*self), 0); }
%loop 0
    m == self.io_map@, ks == bt_keys(m.dom()), btseq_ref(it_0.items(), m), pok(*self), 4 * io_count(m, n_inst(*self)) < 0x1_0000_0000, n == io_count(m, after_key(ks, it_0.pos())), it_0.pos() >= 0,
%at loop_start 0
let ghost i = it_0.pos() - 1;
proof { lemma_gap_key(m, n_inst(*self), i); lemma_io_mono(m, after_key(ks, i + 1), n_inst(*self)); assert(*_c == ks[i]); assert(*v == m[ks[i]]); }
%at after_loop 0
proof { lemma_gap_key(m, n_inst(*self), ks.len() as int); }
%fn WASMProducer::get_io_signals_info_size ret=r
requires pok(*self)
ensures r == 4 * io_words(self.io_map@, n_inst(*self))
%at pre_loop 0
let ghost m = self.io_map@; let ghost ks = bt_keys(m.dom());
proof { lemma_addr(*self); lemma_gap_key(m, n_inst(*self), 0); }
%loop 0
    m == self.io_map@, ks == bt_keys(m.dom()), btseq_ref(it_0.items(), m), pok(*self), 4 * io_words(m, n_inst(*self)) < 0x1_0000_0000, n == io_words(m, after_key(ks, it_0.pos())), it_0.pos() >= 0,
%at loop_start 0
let ghost i = it_0.pos() - 1; let ghost n0: usize = n;
proof { lemma_gap_key(m, n_inst(*self), i); lemma_io_mono(m, after_key(ks, i + 1), n_inst(*self)); assert(*_c == ks[i]); assert(*v == m[ks[i]]); }
%loop 1
    n == n0 + io_len(v@, it_1.pos()), n0 >= 0, n0 + io_len(v@, v@.len() as int) < 0x4000_0000, derefs(it_1.items()) == v@, it_1.pos() >= 0,
%at loop_start 1
proof { lemma_len_mono(v@, it_1.pos(), v@.len() as int); lemma_io_len(v@, it_1.pos() - 1); }
%at after_loop 0
proof { lemma_gap_key(m, n_inst(*self), ks.len() as int); }
%fn WASMProducer::get_number_of_bus_fields ret=r
requires pok(*self)
ensures r == bus_count(self.busid_field_info@, n_bus(*self))
%at pre_loop 0
let ghost m = self.busid_field_info@;
proof { lemma_addr(*self); }
%loop 0
    m == self.busid_field_info@, n == bus_count(m, it_0.pos()), it_0.items().len() == m.len(), 4 * bus_count(m, m.len() as int) < 0x1_0000_0000, forall|j: int| 0 <= j < m.len() ==> *#[trigger] it_0.items()[j] == m[j], it_0.pos() >= 0,
%at loop_start 0
proof { lemma_bus_mono(m, it_0.pos(), m.len() as int); lemma_bus_pos(m, it_0.pos() - 1); }
%fn WASMProducer::get_size_of_bus_info ret=r
requires pok(*self)
ensures r == 4 * bus_words(self.busid_field_info@, n_bus(*self))
%at pre_loop 0
let ghost m = self.busid_field_info@;
proof { lemma_addr(*self); }
%loop 0
    m == self.busid_field_info@, n == bus_words(m, it_0.pos()), it_0.items().len() == m.len(), 4 * bus_words(m, m.len() as int) < 0x1_0000_0000, forall|j: int| 0 <= j < m.len() ==> *#[trigger] it_0.items()[j] == m[j], it_0.pos() >= 0,
%at loop_start 0
let ghost n0: usize = n;
proof { lemma_bus_mono(m, it_0.pos(), m.len() as int); lemma_bus_pos(m, it_0.pos() - 1); }
%loop 1
    n == n0 + bus_len(v@, it_1.pos()), n0 >= 0, n0 + bus_len(v@, v@.len() as int) < 0x4000_0000, derefs(it_1.items()) == v@, it_1.pos() >= 0,
%at loop_start 1
proof { lemma_fbus_mono(v@, it_1.pos(), v@.len() as int); lemma_bus_len(v@, it_1.pos() - 1); }
%fn WASMProducer::get_raw_prime_start ret=r
requires pok(*self)
ensures r == a_prime(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_shared_rw_memory_start ret=r
requires pok(*self)
ensures r == a_shared(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_input_signals_hashmap_start ret=r
requires pok(*self)
ensures r == a_hash(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_remaining_input_signal_counter ret=r
requires pok(*self)
ensures r == a_remaining(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_input_signal_set_map_start ret=r
requires pok(*self)
ensures r == a_set(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_witness_signal_id_list_start ret=r
requires pok(*self)
ensures r == a_witness(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_signal_free_pos ret=r
requires pok(*self)
ensures r == a_sfree(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_signal_memory_start ret=r
requires pok(*self)
ensures r == a_signals(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_component_free_pos ret=r
requires pok(*self)
ensures r == a_cfree(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_component_tree_start ret=r
requires pok(*self)
ensures r == a_tree(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_template_instance_to_io_signal_start ret=r
requires pok(*self)
ensures r == a_inst(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_io_signals_to_info_start ret=r
requires pok(*self)
ensures r == a_ioptr(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_io_signals_info_start ret=r
requires pok(*self)
ensures r == a_io(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_bus_instance_to_field_start ret=r
requires pok(*self)
ensures r == a_bus(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_field_to_info_start ret=r
requires pok(*self)
ensures r == a_fieldptr(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_field_info_start ret=r
requires pok(*self)
ensures r == a_field(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_message_buffer_counter_position ret=r
requires pok(*self)
ensures r == a_mcount(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_message_buffer_start ret=r
requires pok(*self)
ensures r == a_mbuf(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_message_list_start ret=r
requires pok(*self)
ensures r == a_messages(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_string_list_start ret=r
requires pok(*self)
ensures r == a_strings(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_constant_numbers_start ret=r
requires pok(*self)
ensures r == a_consts(*self)
%at start
proof { lemma_addr(*self); }
%fn WASMProducer::get_var_stack_memory_start ret=r
requires pok(*self)
ensures r == a_stack(*self)
%at start
proof { lemma_addr(*self); }
%mod gen
%verbatim
use super::comp::*; use super::prod::*;
broadcast use {axiom_u8size, axiom_key_view, lemma_np2};
pub open spec fn at4(n: int) -> bool { 0 <= n < 0x1_0000_0000 }
// 32-bit little endian words
#[verifier::opaque]
pub open spec fn words(s: Seq<int>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { words(s.drop_last()) + le(s.last(), 4) } }
pub proof fn lemma_words_push(s: Seq<int>, x: int) ensures words(s.push(x)) == words(s) + le(x, 4) { reveal(words); assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_words_len(s: Seq<int>) ensures words(s).len() == 4 * s.len() decreases s.len() { reveal(words); if s.len() > 0 { lemma_words_len(s.drop_last()); lemma_le_len(s.last(), 4); } }
pub proof fn lemma_words_add(a: Seq<int>, b: Seq<int>) ensures words(a + b) == words(a) + words(b) decreases b.len()
{ reveal(words); if b.len() == 0 { assert(a + b =~= a); assert(words(a) + words(b) =~= words(a)); } else { lemma_words_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); assert(words(a + b) =~= words(a) + words(b)); } }
// the text t stands for the words w
pub open spec fn txt(t: Seq<char>, w: Seq<int>) -> bool { wf(t) && datum(t) == words(w) }
pub proof fn lemma_txt_push(t: Seq<char>, w: Seq<int>, u: Seq<char>, x: int) requires txt(t, w), wf(u), datum(u) == le(x, 4) ensures txt(t + u, w.push(x))
{ lemma_datum_add(t, u); lemma_words_push(w, x); }
pub proof fn lemma_4(n: int) requires at4(n) ensures 0 <= n < pow256(4) { reveal_with_fuel(pow256, 5); }
pub proof fn lemma_8(n: int) requires 0 <= n <= u64::MAX ensures 0 <= n < pow256(8) { reveal_with_fuel(pow256, 9); }
// the byte in front of a text
pub proof fn lemma_front(a: char, b: char, t: Seq<char>, s: Seq<char>) requires hexv(a) >= 0, hexv(b) >= 0, wf(t), s == seq!['\\', a, b] + t ensures wf(s), datum(s) == seq![(16 * hexv(a) + hexv(b)) as u8] + datum(t)
{ assert(s.skip(3) =~= t); }
pub proof fn lemma_hexd(d: int) requires 0 <= d < 16 ensures hexv(hexd(d)) == d {
    assert('0' as int == 48 && 'a' as int == 97 && '9' as int == 57 && 'f' as int == 102 && 'A' as int == 65 && 'F' as int == 70);
    if d < 10 { assert(((48 + d) as u8) as char as int == 48 + d); } else { assert(((87 + d) as u8) as char as int == 87 + d); }
}
pub proof fn lemma_byte(x: int, n: nat, i: int, temp: Seq<char>, res0: Seq<char>)
    requires x >= 0, 0 <= i < n, temp == hexpad(x, 2 * n), wf(res0), datum(res0) == le(x / pow256((n - i) as nat), i as nat)
    ensures temp.len() == 2 * n, ({ let s = seq!['\\', temp[2 * i], temp[2 * i + 1]] + res0; wf(s) && datum(s) == le(x / pow256((n - i - 1) as nat), (i + 1) as nat) })
{
    lemma_hexpad_len(x, 2 * n);
    let q = pow256((n - i - 1) as nat);
    lemma_pow16((n - i - 1) as nat);
    let y = x / q;
    lemma_pow16((2 * (n - i - 1)) as nat);
    lemma_hexpad_take(x, 2 * n, (2 * i + 2) as nat);
    assert((2 * n - (2 * i + 2)) as nat == (2 * (n - i - 1)) as nat);
    let h = hexpad(y, (2 * i + 2) as nat);
    assert(h == hexpad(y / 16, (2 * i + 1) as nat).push(hexd(y % 16)));
    assert(hexpad(y / 16, (2 * i + 1) as nat) == hexpad(y / 16 / 16, (2 * i) as nat).push(hexd((y / 16) % 16)));
    lemma_hexpad_len(y / 16 / 16, (2 * i) as nat);
    assert(temp[2 * i] == temp.take(2 * i + 2)[2 * i]);
    assert(temp[2 * i + 1] == temp.take(2 * i + 2)[2 * i + 1]);
    assert(pow256((n - i) as nat) == 256 * q);
    assert(x / (q * 256) == (x / q) / 256) by { vstd::arithmetic::div_mod::lemma_div_denominator(x, q, 256); }
    assert(q * 256 == 256 * q);
    assert(y >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, q); }
    lemma_hexd((y / 16) % 16); lemma_hexd(y % 16);
    assert(16 * ((y / 16) % 16) + y % 16 == y % 256);
    lemma_front(temp[2 * i], temp[2 * i + 1], res0, seq!['\\', temp[2 * i], temp[2 * i + 1]] + res0);
    assert(le(y, (i + 1) as nat) == seq![(y % 256) as u8] + le(y / 256, i as nat));
}
%end
%source code_producers/src/wasm_elements/wasm_code_generator.rs
%fn wasm_hexa ret=r
requires nbytes >= 1, nbytes <= 0x1000_0000, 0 <= num@ < pow256(nbytes as nat)
ensures wf(r@), datum(r@) == le(num@, nbytes as nat)
%at start
let ghost x = num@; let ghost n = nbytes as nat;
proof { lemma_pow16(n); lemma_hex(x, 2 * n); lemma_hexpad_len(x, 2 * n); reveal_strlit("0"); reveal_strlit(""); reveal_strlit("\\"); assert("0"@ =~= seq!['0']); assert(""@ =~= Seq::<char>::empty()); assert("\\"@ =~= seq!['\\']); lemma_hex_ascii(x); }
%at pre_loop 0
proof { assert(temp@ =~= hexpad(x, 2 * n)); lemma_pow16(n); assert(x / pow256(n) == 0) by (nonlinear_arith) requires 0 <= x < pow256(n); assert(le(0, 0) =~= Seq::<u8>::empty()); assert(res@ =~= Seq::<char>::empty()); }
%loop 0
    n == nbytes, 1 <= n <= 0x1000_0000, x >= 0, temp@ == hexpad(x, 2 * n), temp@.len() == 2 * n, ascii(temp@), 0 <= it_0.pos() <= n, wf(res@), datum(res@) == le(x / pow256((n - it_0.pos()) as nat), it_0.pos() as nat), "\\"@ =~= seq!['\\'],
%at loop_start 0
let ghost res0 = res@;
proof { lemma_byte(x, n, i as int, temp@, res0); }
%at loop_end 0
proof { assert(res@ =~= seq!['\\', temp@[2 * i], temp@[2 * i + 1]] + res0); }
%at after_loop 0
proof { assert(x / 1 == x); assert(pow256(0) == 1); }
%verbatim
// ---- hash table of the main inputs: linear probing from hash % size over the slots in use (start 0 marks a free slot)
pub type Slot = (u64, usize, usize);
pub open spec fn nxt(p: int, size: int) -> int { if p + 1 == size { 0 } else { p + 1 } }
pub open spec fn reach(m: Seq<Slot>, p: int, q: int, k: nat) -> bool decreases k { if k == 0 { p == q } else { 0 <= p < m.len() && m[p].1 != 0 && reach(m, nxt(p, m.len() as int), q, (k - 1) as nat) } }
pub open spec fn entry(x: InputInfo) -> Slot { (fnv(x.name@), x.start, x.size) }
pub open spec fn home(x: InputInfo, size: int) -> int { (fnv(x.name@) as usize as int) % size }
pub open spec fn found(m: Seq<Slot>, x: InputInfo) -> bool { exists|q: int, k: nat| 0 <= q < m.len() && #[trigger] reach(m, home(x, m.len() as int), q, k) && m[q] == entry(x) }
pub open spec fn hash_ok(m: Seq<Slot>, l: Seq<InputInfo>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] found(m, l[i])
    &&& forall|q: int| 0 <= q < m.len() && (#[trigger] m[q]).1 != 0 ==> exists|i: int| 0 <= i < l.len() && m[q] == entry(#[trigger] l[i])
    &&& forall|q: int| 0 <= q < m.len() && (#[trigger] m[q]).1 == 0 ==> m[q] == (0u64, 0usize, 0usize)
}
pub open spec fn dist(p: int, f: int, size: int) -> int { if f >= p { f - p } else { f - p + size } }
pub proof fn lemma_reach_push(m: Seq<Slot>, p: int, q: int, k: nat) requires reach(m, p, q, k), 0 <= p < m.len(), 0 <= q < m.len(), m[q].1 != 0 ensures reach(m, p, nxt(q, m.len() as int), k + 1) decreases k
{ if k > 0 { lemma_reach_push(m, nxt(p, m.len() as int), q, (k - 1) as nat); } else { assert(reach(m, nxt(p, m.len() as int), nxt(q, m.len() as int), 0)); } }
pub proof fn lemma_reach_update(m: Seq<Slot>, j: int, e: Slot, p: int, q: int, k: nat) requires reach(m, p, q, k), 0 <= j < m.len(), e.1 != 0 ensures reach(m.update(j, e), p, q, k) decreases k
{ if k > 0 { lemma_reach_update(m, j, e, nxt(p, m.len() as int), q, (k - 1) as nat); } }
pub proof fn lemma_found_update(m: Seq<Slot>, j: int, e: Slot, x: InputInfo) requires found(m, x), x.start != 0, 0 <= j < m.len(), e.1 != 0, m[j].1 == 0 ensures found(m.update(j, e), x)
{ let (q, k) = choose|q: int, k: nat| 0 <= q < m.len() && #[trigger] reach(m, home(x, m.len() as int), q, k) && m[q] == entry(x); lemma_reach_update(m, j, e, home(x, m.len() as int), q, k); assert(m.update(j, e)[q] == entry(x)); }
pub proof fn lemma_free(pos: Seq<int>, size: int) -> (f: int) requires pos.len() < size ensures 0 <= f < size, !pos.contains(f)
{
    if forall|f: int| 0 <= f < size ==> pos.contains(f) {
        let r = vstd::set_lib::set_int_range(0, size);
        vstd::set_lib::lemma_int_range(0, size);
        pos.lemma_cardinality_of_set();
        assert(r.subset_of(pos.to_set())) by { assert forall|x: int| #[trigger] r.contains(x) implies pos.to_set().contains(x) by { assert(pos.contains(x)); } }
        vstd::set_lib::lemma_len_subset(r, pos.to_set());
        assert(false);
    }
    choose|f: int| 0 <= f < size && !pos.contains(f)
}
pub open spec fn slot_bytes(s: Slot) -> Seq<u8> { le(s.0 as int, 8) + le(s.1 as int, 4) + le(s.2 as int, 4) }
pub open spec fn table_bytes(m: Seq<Slot>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { table_bytes(m, n - 1) + slot_bytes(m[n - 1]) } }
pub open spec fn ints(s: Seq<usize>) -> Seq<int> { s.map(|_i: int, x: usize| x as int) }
%end
%fn generate_hash_map ret=r
requires signal_name_list@.len() <= size, forall|i: int| 0 <= i < signal_name_list@.len() ==> (#[trigger] signal_name_list@[i]).start != 0
ensures r@.len() == size, hash_ok(r@, signal_name_list@)
%at pre_loop 0
let ghost l = signal_name_list@; let ghost mut pos: Seq<int> = Seq::empty();
%loop 0
    l == signal_name_list@, l.len() <= size, forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j]).start != 0,
    hash_map@.len() == size, 0 <= it_0.pos() <= l.len(), pos.len() == it_0.pos(),
    forall|j: int| 0 <= j < it_0.pos() ==> #[trigger] found(hash_map@, l[j]),
    forall|q: int| 0 <= q < size && (#[trigger] hash_map@[q]).1 != 0 ==> pos.contains(q) && exists|i: int| 0 <= i < l.len() && hash_map@[q] == entry(#[trigger] l[i]),
    forall|q: int| 0 <= q < size && (#[trigger] hash_map@[q]).1 == 0 ==> hash_map@[q] == (0u64, 0usize, 0usize),
%at pre_loop 1
let ghost m = hash_map@; let ghost h0 = home(l[i as int], size as int); let ghost mut k: nat = 0;
let ghost f = lemma_free(pos, size as int);
proof { assert(m[f].1 == 0); assert(reach(m, h0, p as int, 0)); }
%loop 1
    m == hash_map@, m.len() == size, 0 <= p < size, 0 <= h0 < size, 0 <= f < size, m[f].1 == 0, reach(m, h0, p as int, k),
decreases dist(p as int, f, size as int)
%at loop_start 1
proof { lemma_reach_push(m, h0, p as int, k); k = k + 1; if p + 1 == size { assert((p + 1) as int % size as int == 0) by (nonlinear_arith) requires p + 1 == size; } else { vstd::arithmetic::div_mod::lemma_small_mod((p + 1) as nat, size as nat); } }
%at loop_end 0
proof {
    let e = entry(l[i as int]);
    assert(hash_map@ =~= m.update(p as int, e));
    lemma_reach_update(m, p as int, e, h0, p as int, k);
    assert(found(hash_map@, l[i as int]));
    assert forall|j: int| 0 <= j < i implies #[trigger] found(hash_map@, l[j]) by { lemma_found_update(m, p as int, e, l[j]); }
    let pos0 = pos;
    pos = pos.push(p as int);
    assert forall|q: int| 0 <= q < size && (#[trigger] hash_map@[q]).1 != 0 implies pos.contains(q) && exists|i: int| 0 <= i < l.len() && hash_map@[q] == entry(#[trigger] l[i]) by {
        if q == p { assert(pos[pos0.len() as int] == q); assert(hash_map@[q] == entry(l[i as int])); } else { assert(m[q].1 != 0); assert(pos0.contains(q)); let w = choose|w: int| 0 <= w < pos0.len() && pos0[w] == q; assert(pos[w] == q); }
    }
}
%fn generate_data_from_hash_map ret=r
requires forall|q: int| 0 <= q < map@.len() ==> at4((#[trigger] map@[q]).1 as int) && at4(map@[q].2 as int)
ensures wf(r@), datum(r@) == table_bytes(map@, map@.len() as int)
%at start
proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
%loop 0
    ""@ =~= Seq::<char>::empty(), derefs(it_0.items()) == map@, 0 <= it_0.pos() <= map@.len(), wf(hash_map_data@), datum(hash_map_data@) == table_bytes(map@, it_0.pos()),
    forall|q: int| 0 <= q < map@.len() ==> at4((#[trigger] map@[q]).1 as int) && at4(map@[q].2 as int),
%at loop_start 0
let ghost t0 = hash_map_data@; let ghost q = it_0.pos() - 1;
proof { assert(map@[q] == (*h, *p, *s)); lemma_8(*h as int); lemma_4(*p as int); lemma_4(*s as int);
    assert forall|t: Seq<char>, u: Seq<char>| wf(t) && wf(u) implies wf(#[trigger] (t + u)) && datum(t + u) == datum(t) + datum(u) by { lemma_datum_add(t, u); } }
%at loop_end 0
proof { assert(datum(hash_map_data@) =~= table_bytes(map@, q) + slot_bytes(map@[q])); }
%fn generate_data_witness_to_signal_list ret=r
requires forall|q: int| 0 <= q < signal_list@.len() ==> at4(#[trigger] signal_list@[q] as int)
ensures txt(r@, ints(signal_list@))
%at start
proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); reveal(words); assert(ints(signal_list@).take(0) =~= Seq::<int>::empty()); }
%loop 0
    derefs(it_0.items()) == signal_list@, 0 <= it_0.pos() <= signal_list@.len(), txt(signallist_data@, ints(signal_list@).take(it_0.pos())),
    forall|q: int| 0 <= q < signal_list@.len() ==> at4(#[trigger] signal_list@[q] as int),
%at loop_start 0
let ghost q = it_0.pos() - 1; let ghost t0 = signallist_data@;
proof { assert(signal_list@[q] == *s); lemma_4(*s as int); assert forall|u: Seq<char>| wf(u) && datum(u) == le(*s as int, 4) implies #[trigger] txt(t0 + u, ints(signal_list@).take(q).push(*s as int)) by { lemma_txt_push(t0, ints(signal_list@).take(q), u, *s as int); } }
%at loop_end 0
proof { assert(ints(signal_list@).take(q).push(*s as int) =~= ints(signal_list@).take(q + 1)); }
%at after_loop 0
proof { assert(ints(signal_list@).take(signal_list@.len() as int) =~= ints(signal_list@)); }
%verbatim
// ---- tables of the inputs and outputs of the instances: instance -> first pointer -> record
pub open spec fn inst_ptrs(m: IOMap, base: int, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { inst_ptrs(m, base, n - 1).push(if m.contains_key((n - 1) as usize) { base + 4 * io_count(m, n - 1) } else { 0 }) } }
pub open spec fn ptrs_of(v: Seq<IODef>, base: int, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else { ptrs_of(v, base, k - 1).push(base + 4 * io_len(v, k - 1)) } }
pub open spec fn rec_ptrs(m: IOMap, base: int, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { rec_ptrs(m, base, n - 1) + (if m.contains_key((n - 1) as usize) { ptrs_of(m[(n - 1) as usize]@, base + 4 * io_words(m, n - 1), m[(n - 1) as usize]@.len() as int) } else { Seq::empty() }) } }
pub open spec fn io_rec(x: IODef, w: int) -> Seq<int> { record(x.offset * w, x.lengths@, x.size as int, x.bus_id) }
pub open spec fn recs_of(v: Seq<IODef>, w: int, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else { recs_of(v, w, k - 1) + io_rec(v[k - 1], w) } }
pub open spec fn recs(m: IOMap, w: int, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { recs(m, w, n - 1) + (if m.contains_key((n - 1) as usize) { recs_of(m[(n - 1) as usize]@, w, m[(n - 1) as usize]@.len() as int) } else { Seq::empty() }) } }
pub proof fn lemma_ptrs_of(v: Seq<IODef>, base: int, w: int, k: int) requires 0 <= k <= v.len()
    ensures ptrs_of(v, base, k).len() == k, recs_of(v, w, k).len() == io_len(v, k),
        forall|j: int| 0 <= j < k ==> #[trigger] ptrs_of(v, base, k)[j] == base + 4 * io_len(v, j),
        forall|j: int| 0 <= j < k ==> 0 <= #[trigger] io_len(v, j) && io_len(v, j) + io_rec(v[j], w).len() <= io_len(v, k) && recs_of(v, w, k).subrange(io_len(v, j), io_len(v, j) + io_rec(v[j], w).len()) == io_rec(v[j], w)
    decreases k
{
    lemma_io_len(v, k);
    if k > 0 {
        lemma_ptrs_of(v, base, w, k - 1); lemma_io_len(v, k - 1);
        let x = v[k - 1];
        lemma_rec_len(x.offset * w, x.lengths@, x.size as int, x.bus_id);
        let a = recs_of(v, w, k - 1);
        assert forall|j: int| 0 <= j < k implies 0 <= #[trigger] io_len(v, j) && io_len(v, j) + io_rec(v[j], w).len() <= io_len(v, k) && recs_of(v, w, k).subrange(io_len(v, j), io_len(v, j) + io_rec(v[j], w).len()) == io_rec(v[j], w) by {
            if j < k - 1 { assert(recs_of(v, w, k).subrange(io_len(v, j), io_len(v, j) + io_rec(v[j], w).len()) =~= a.subrange(io_len(v, j), io_len(v, j) + io_rec(v[j], w).len())); }
            else { assert(recs_of(v, w, k).subrange(io_len(v, j), io_len(v, j) + io_rec(v[j], w).len()) =~= io_rec(x, w)); }
        }
    }
}
// following the pointers from an instance and one of its signals leads to that signal's record
pub proof fn lemma_io_lookup(m: IOMap, pbase: int, base: int, w: int, n: int, c: int, j: int)
    requires 0 <= c < n <= usize::MAX, m.contains_key(c as usize), 0 <= j < m[c as usize]@.len()
    ensures ({
        let i = io_count(m, c) + j;
        let at = io_words(m, c) + io_len(m[c as usize]@, j);
        let r = io_rec(m[c as usize]@[j], w);
        &&& inst_ptrs(m, pbase, n).len() == n && inst_ptrs(m, pbase, n)[c] + 4 * j == pbase + 4 * i
        &&& 0 <= i < rec_ptrs(m, base, n).len() && rec_ptrs(m, base, n)[i] == base + 4 * at
        &&& 0 <= at && at + r.len() <= recs(m, w, n).len() && recs(m, w, n).subrange(at, at + r.len()) == r
    })
    decreases n
{
    lemma_io_sizes(m, pbase, base, w, n); lemma_io_sizes(m, pbase, base, w, n - 1); lemma_io_pos(m, n - 1); lemma_io_pos(m, c);
    let v = m[c as usize]@;
    if c == n - 1 {
        lemma_ptrs_of(v, base + 4 * io_words(m, c), w, v.len() as int);
        assert(ptrs_of(v, base + 4 * io_words(m, c), v.len() as int)[j] == base + 4 * io_words(m, c) + 4 * io_len(v, j));
        let at = io_words(m, c) + io_len(v, j); let r = io_rec(v[j], w);
        assert(io_len(v, j) >= 0);
        assert(recs(m, w, n).subrange(at, at + r.len()) =~= recs_of(v, w, v.len() as int).subrange(io_len(v, j), io_len(v, j) + r.len()));
    } else {
        lemma_io_lookup(m, pbase, base, w, n - 1, c, j);
        let at = io_words(m, c) + io_len(v, j); let r = io_rec(v[j], w);
        assert(recs(m, w, n).subrange(at, at + r.len()) =~= recs(m, w, n - 1).subrange(at, at + r.len()));
    }
}
pub proof fn lemma_io_sizes(m: IOMap, pbase: int, base: int, w: int, n: int) requires 0 <= n <= usize::MAX
    ensures inst_ptrs(m, pbase, n).len() == n, rec_ptrs(m, base, n).len() == io_count(m, n), recs(m, w, n).len() == io_words(m, n) decreases n
{ if n > 0 { lemma_io_sizes(m, pbase, base, w, n - 1); if m.contains_key((n - 1) as usize) { let v = m[(n - 1) as usize]@; lemma_ptrs_of(v, base + 4 * io_words(m, n - 1), w, v.len() as int); } } }
pub open spec fn rec_fits(off: usize, w: int, l: Seq<usize>, size: usize, bus: Option<usize>) -> bool {
    at4(off * w) && at4(size as int) && (bus is Some ==> at4(bus->0 as int)) && forall|i: int| 0 <= i < l.len() ==> at4(#[trigger] l[i] as int)
}
pub open spec fn io_fits(m: IOMap, w: int) -> bool { forall|c: usize, k: int| m.contains_key(c) && 0 <= k < m[c]@.len() ==> { let x = #[trigger] m[c]@[k]; x.code == k && rec_fits(x.offset, w, x.lengths@, x.size, x.bus_id) } }
pub proof fn lemma_txt_empty() ensures txt(Seq::empty(), Seq::empty()), ""@ =~= Seq::<char>::empty() { reveal_strlit(""); reveal(words); }
// extending a table by one word
pub proof fn lemma_ext(t: Seq<char>, w: Seq<int>, x: int) requires txt(t, w) ensures forall|u: Seq<char>| #![trigger t + u] wf(u) && datum(u) == le(x, 4) ==> txt(t + u, w.push(x))
{ assert forall|u: Seq<char>| #![trigger t + u] wf(u) && datum(u) == le(x, 4) implies txt(t + u, w.push(x)) by { lemma_txt_push(t, w, u, x); } }
%end
%fn generate_data_template_instance_to_io ret=r
requires pok(*producer), io_map@ == producer.io_map@
ensures txt(r@, inst_ptrs(io_map@, a_ioptr(*producer), n_inst(*producer)))
%at pre_loop 0
let ghost m = io_map@; let ghost p = *producer; let ghost n = n_inst(p);
proof { lemma_txt_empty(); lemma_addr(p); lemma_io_pos(m, 0); }
%loop 0
    m == io_map@, p == *producer, pok(p), m == p.io_map@, n == n_inst(p), 0 <= it_0.pos() <= n, s == a_ioptr(p) + 4 * io_count(m, it_0.pos()), txt(io_map_data@, inst_ptrs(m, a_ioptr(p), it_0.pos())), a_io(p) < 0x1_0000_0000,
%at loop_start 0
proof { lemma_io_mono(m, c + 1, n); lemma_io_mono(m, c as int, n); lemma_io_pos(m, c as int); assert((c + 1 - 1) as usize == c); lemma_addr(p);
    lemma_4(s as int); lemma_4(0); lemma_ext(io_map_data@, inst_ptrs(m, a_ioptr(p), c as int), s as int); lemma_ext(io_map_data@, inst_ptrs(m, a_ioptr(p), c as int), 0); }
%fn generate_data_io_signals_to_info ret=r
requires pok(*producer), io_map@ == producer.io_map@, io_fits(io_map@, 4 * (producer.size_32_bit + 2))
ensures txt(r@, rec_ptrs(io_map@, a_io(*producer), n_inst(*producer)))
%at pre_loop 0
let ghost m = io_map@; let ghost p = *producer; let ghost nn = n_inst(p);
proof { lemma_txt_empty(); lemma_addr(p); lemma_io_pos(m, 0); }
%loop 0
    m == io_map@, p == *producer, pok(p), m == p.io_map@, nn == n_inst(p), 0 <= it_0.pos() <= nn, pos == a_io(p) + 4 * io_words(m, it_0.pos()), txt(io_signals@, rec_ptrs(m, a_io(p), it_0.pos())), a_bus(p) < 0x1_0000_0000, io_fits(m, 4 * (p.size_32_bit + 2)),
%at loop_start 0
let ghost t0 = rec_ptrs(m, a_io(p), c as int); let ghost base = a_io(p) + 4 * io_words(m, c as int);
proof { lemma_io_mono(m, c + 1, nn); lemma_io_pos(m, c as int); assert((c + 1 - 1) as usize == c); lemma_addr(p); }
%at pre_loop 1
let ghost v = value@;
proof { assert(t0 + ptrs_of(v, base, 0) =~= t0); }
%loop 1
    v == value@, derefs(it_1.items()) == v, 0 <= it_1.pos() <= v.len(), m.contains_key(c), v == m[c]@, io_fits(m, 4 * (p.size_32_bit + 2)), base == a_io(p) + 4 * io_words(m, c as int), base >= 0,
    n == it_1.pos(), pos == base + 4 * io_len(v, it_1.pos()), base + 4 * io_len(v, v.len() as int) < 0x1_0000_0000, txt(io_signals@, t0 + ptrs_of(v, base, it_1.pos())),
%at loop_start 1
let ghost k = it_1.pos() - 1;
proof { assert(*s == m[c]@[k]); lemma_len_mono(v, k + 1, v.len() as int); lemma_len_mono(v, k, v.len() as int); lemma_io_len(v, k); lemma_4(pos as int); lemma_ext(io_signals@, t0 + ptrs_of(v, base, k), pos as int);
    assert((t0 + ptrs_of(v, base, k)).push(pos as int) =~= t0 + ptrs_of(v, base, k + 1)); }
%at loop_end 0
proof { if !m.contains_key(c) { assert(t0 + Seq::<int>::empty() =~= t0); } }
%verbatim
pub proof fn lemma_off(o: int, k: int) requires o >= 0, k >= 0 ensures o * (4 * k) == (o * k) * 4, 0 <= o * k { assert(o * (4 * k) == (o * k) * 4) by (nonlinear_arith); assert(0 <= o * k) by (nonlinear_arith) requires o >= 0, k >= 0; }
pub proof fn lemma_ext_all(x: int) ensures forall|t: Seq<char>, w: Seq<int>, u: Seq<char>| #![trigger txt(t, w), t + u] txt(t, w) && wf(u) && datum(u) == le(x, 4) ==> txt(t + u, w.push(x))
{ assert forall|t: Seq<char>, w: Seq<int>, u: Seq<char>| #![trigger txt(t, w), t + u] txt(t, w) && wf(u) && datum(u) == le(x, 4) implies txt(t + u, w.push(x)) by { lemma_txt_push(t, w, u, x); } }
%end
%fn generate_data_io_signals_info ret=r
requires pok(*producer), io_map@ == producer.io_map@, io_fits(io_map@, 4 * (producer.size_32_bit + 2))
ensures txt(r@, recs(io_map@, 4 * (producer.size_32_bit + 2), n_inst(*producer)))
%at pre_loop 0
let ghost m = io_map@; let ghost p = *producer; let ghost nn = n_inst(p); let ghost w = 4 * (p.size_32_bit + 2);
proof { lemma_txt_empty(); }
%loop 0
    m == io_map@, p == *producer, pok(p), m == p.io_map@, nn == n_inst(p), 0 <= it_0.pos() <= nn, w == 4 * (p.size_32_bit + 2), txt(io_signals_info@, recs(m, w, it_0.pos())), io_fits(m, w),
%at loop_start 0
let ghost t0 = recs(m, w, c as int);
proof { assert((c + 1 - 1) as usize == c); }
%at pre_loop 1
let ghost v = value@;
proof { assert(t0 + recs_of(v, w, 0) =~= t0); }
%loop 1
    v == value@, derefs(it_1.items()) == v, 0 <= it_1.pos() <= v.len(), m.contains_key(c), v == m[c]@, io_fits(m, w), w == 4 * (p.size_32_bit + 2), p == *producer, pok(p),
    txt(io_signals_info@, t0 + recs_of(v, w, it_1.pos())),
%at loop_start 1
let ghost k = it_1.pos() - 1; let ghost t1 = t0 + recs_of(v, w, k); let ghost off = s.offset * w; let ghost l0 = s.lengths@;
proof { let x = m[c]@[k]; assert(*s == x); lemma_off(s.offset as int, p.size_32_bit + 2); lemma_4(off); lemma_4(s.size as int); lemma_ext(io_signals_info@, t1, off);
    if s.lengths@.len() == 0 { lemma_tail_words(s.lengths@, 0); } if s.bus_id is Some { lemma_4(s.bus_id->0 as int); lemma_ext_all(s.bus_id->0 as int); } }
%at pre_loop 2
let ghost l = s.lengths@; let ghost t2 = t1.push(off);
proof { assert(t2 + tail_words(l, 1) =~= t2); }
%loop 2
    l == s.lengths@, it_2.items().len() == (if l.len() >= 1 { l.len() - 1 } else { 0 }), forall|i: int| 0 <= i < it_2.items().len() ==> #[trigger] it_2.items()[i] == 1 + i, it_2.pos() >= 0, txt(io_signals_info@, t2 + tail_words(l, it_2.pos() + 1)), forall|i: int| 0 <= i < l.len() ==> at4(#[trigger] l[i] as int),
%at loop_start 2
proof { lemma_4(l[i as int] as int); lemma_ext(io_signals_info@, t2 + tail_words(l, i as int), l[i as int] as int); assert((t2 + tail_words(l, i as int)).push(l[i as int] as int) =~= t2 + tail_words(l, i + 1)); }
%at after_loop 2
proof { lemma_ext(io_signals_info@, t2 + tail_words(l, l.len() as int), s.size as int); }
%at loop_end 1
proof {
    let a = if l0.len() > 0 { (t1.push(off) + tail_words(l0, l0.len() as int)).push(s.size as int) } else { t1.push(off) };
    let b = if s.bus_id is Some { a.push(s.bus_id->0 as int) } else { a };
    assert(b =~= t1 + io_rec(*s, w));
    assert(t1 + io_rec(*s, w) =~= t0 + recs_of(v, w, k + 1)); }
%at loop_end 0
proof { if !m.contains_key(c) { assert(t0 + Seq::<int>::empty() =~= t0); } }
%verbatim
// ---- tables of the fields of the buses: bus -> first pointer -> record
type FMap = Seq<Vec<FieldData>>;
pub open spec fn bus_ptrs(m: Seq<Vec<FieldData>>, base: int, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { bus_ptrs(m, base, n - 1).push(base + 4 * bus_count(m, n - 1)) } }
pub open spec fn fptrs_of(v: Seq<FieldData>, base: int, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else { fptrs_of(v, base, k - 1).push(base + 4 * bus_len(v, k - 1)) } }
pub open spec fn fld_ptrs(m: Seq<Vec<FieldData>>, base: int, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { fld_ptrs(m, base, n - 1) + fptrs_of(m[n - 1]@, base + 4 * bus_words(m, n - 1), m[n - 1]@.len() as int) } }
pub open spec fn fld_rec(x: FieldData, w: int) -> Seq<int> { record(x.offset * w, x.dimensions@, x.size as int, x.bus_id) }
pub open spec fn flds_of(v: Seq<FieldData>, w: int, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else { flds_of(v, w, k - 1) + fld_rec(v[k - 1], w) } }
pub open spec fn flds(m: Seq<Vec<FieldData>>, w: int, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { flds(m, w, n - 1) + flds_of(m[n - 1]@, w, m[n - 1]@.len() as int) } }
pub proof fn lemma_fptrs_of(v: Seq<FieldData>, base: int, w: int, k: int) requires 0 <= k <= v.len()
    ensures fptrs_of(v, base, k).len() == k, flds_of(v, w, k).len() == bus_len(v, k),
        forall|j: int| 0 <= j < k ==> #[trigger] fptrs_of(v, base, k)[j] == base + 4 * bus_len(v, j),
        forall|j: int| 0 <= j < k ==> 0 <= #[trigger] bus_len(v, j) && bus_len(v, j) + fld_rec(v[j], w).len() <= bus_len(v, k) && flds_of(v, w, k).subrange(bus_len(v, j), bus_len(v, j) + fld_rec(v[j], w).len()) == fld_rec(v[j], w)
    decreases k
{
    lemma_bus_len(v, k);
    if k > 0 {
        lemma_fptrs_of(v, base, w, k - 1); lemma_bus_len(v, k - 1);
        let x = v[k - 1];
        lemma_rec_len(x.offset * w, x.dimensions@, x.size as int, x.bus_id);
        let a = flds_of(v, w, k - 1);
        assert forall|j: int| 0 <= j < k implies 0 <= #[trigger] bus_len(v, j) && bus_len(v, j) + fld_rec(v[j], w).len() <= bus_len(v, k) && flds_of(v, w, k).subrange(bus_len(v, j), bus_len(v, j) + fld_rec(v[j], w).len()) == fld_rec(v[j], w) by {
            if j < k - 1 { assert(flds_of(v, w, k).subrange(bus_len(v, j), bus_len(v, j) + fld_rec(v[j], w).len()) =~= a.subrange(bus_len(v, j), bus_len(v, j) + fld_rec(v[j], w).len())); }
            else { assert(flds_of(v, w, k).subrange(bus_len(v, j), bus_len(v, j) + fld_rec(v[j], w).len()) =~= fld_rec(x, w)); }
        }
    }
}
pub proof fn lemma_bus_sizes(m: Seq<Vec<FieldData>>, pbase: int, base: int, w: int, n: int) requires 0 <= n <= m.len()
    ensures bus_ptrs(m, pbase, n).len() == n, fld_ptrs(m, base, n).len() == bus_count(m, n), flds(m, w, n).len() == bus_words(m, n) decreases n
{ if n > 0 { lemma_bus_sizes(m, pbase, base, w, n - 1); let v = m[n - 1]@; lemma_fptrs_of(v, base + 4 * bus_words(m, n - 1), w, v.len() as int); } }
// following the pointers from a bus and one of its fields leads to that field's record
pub proof fn lemma_bus_lookup(m: Seq<Vec<FieldData>>, pbase: int, base: int, w: int, n: int, c: int, j: int)
    requires 0 <= c < n <= m.len(), 0 <= j < m[c]@.len()
    ensures ({
        let i = bus_count(m, c) + j;
        let at = bus_words(m, c) + bus_len(m[c]@, j);
        let r = fld_rec(m[c]@[j], w);
        &&& bus_ptrs(m, pbase, n).len() == n && bus_ptrs(m, pbase, n)[c] + 4 * j == pbase + 4 * i
        &&& 0 <= i < fld_ptrs(m, base, n).len() && fld_ptrs(m, base, n)[i] == base + 4 * at
        &&& 0 <= at && at + r.len() <= flds(m, w, n).len() && flds(m, w, n).subrange(at, at + r.len()) == r
    })
    decreases n
{
    lemma_bus_sizes(m, pbase, base, w, n); lemma_bus_sizes(m, pbase, base, w, n - 1); lemma_bus_pos(m, n - 1); lemma_bus_pos(m, c);
    let v = m[c]@;
    if c == n - 1 {
        lemma_fptrs_of(v, base + 4 * bus_words(m, c), w, v.len() as int);
        assert(fptrs_of(v, base + 4 * bus_words(m, c), v.len() as int)[j] == base + 4 * bus_words(m, c) + 4 * bus_len(v, j));
        let at = bus_words(m, c) + bus_len(v, j); let r = fld_rec(v[j], w);
        assert(bus_len(v, j) >= 0);
        assert(flds(m, w, n).subrange(at, at + r.len()) =~= flds_of(v, w, v.len() as int).subrange(bus_len(v, j), bus_len(v, j) + r.len()));
    } else {
        lemma_bus_lookup(m, pbase, base, w, n - 1, c, j);
        let at = bus_words(m, c) + bus_len(v, j); let r = fld_rec(v[j], w);
        assert(flds(m, w, n).subrange(at, at + r.len()) =~= flds(m, w, n - 1).subrange(at, at + r.len()));
    }
}
pub open spec fn bus_fits(m: Seq<Vec<FieldData>>, w: int) -> bool { forall|c: int, k: int| 0 <= c < m.len() && 0 <= k < m[c]@.len() ==> { let x = #[trigger] m[c]@[k]; rec_fits(x.offset, w, x.dimensions@, x.size, x.bus_id) } }
%end
%fn generate_data_bus_instance_to_field ret=r
requires pok(*producer), field_map@ == producer.busid_field_info@
ensures txt(r@, bus_ptrs(field_map@, a_fieldptr(*producer), n_bus(*producer)))
%at pre_loop 0
let ghost m = field_map@; let ghost p = *producer; let ghost n = n_bus(p);
proof { lemma_txt_empty(); lemma_addr(p); lemma_bus_pos(m, 0); }
%loop 0
    m == field_map@, p == *producer, pok(p), m == p.busid_field_info@, n == n_bus(p), n == m.len(), 0 <= it_0.pos() <= n, it_0.items().len() == n, s == a_fieldptr(p) + 4 * bus_count(m, it_0.pos()), txt(field_map_data@, bus_ptrs(m, a_fieldptr(p), it_0.pos())), a_field(p) < 0x1_0000_0000,
%at loop_start 0
proof { lemma_bus_mono(m, c + 1, n); lemma_bus_mono(m, c as int, n); lemma_bus_pos(m, c as int); lemma_addr(p);
    lemma_4(s as int); lemma_ext(field_map_data@, bus_ptrs(m, a_fieldptr(p), c as int), s as int); }
%fn generate_data_field_to_info ret=r
requires pok(*producer), field_map@ == producer.busid_field_info@
ensures txt(r@, fld_ptrs(field_map@, a_field(*producer), n_bus(*producer)))
%at pre_loop 0
let ghost m = field_map@; let ghost p = *producer; let ghost nn = n_bus(p);
proof { lemma_txt_empty(); lemma_addr(p); lemma_bus_pos(m, 0); }
%loop 0
    m == field_map@, p == *producer, pok(p), m == p.busid_field_info@, nn == n_bus(p), nn == m.len(), 0 <= it_0.pos() <= nn, it_0.items().len() == nn, pos == a_field(p) + 4 * bus_words(m, it_0.pos()), txt(bus_fields@, fld_ptrs(m, a_field(p), it_0.pos())), a_mcount(p) < 0x1_0000_0000,
%at loop_start 0
let ghost t0 = fld_ptrs(m, a_field(p), c as int); let ghost base = a_field(p) + 4 * bus_words(m, c as int);
proof { lemma_bus_mono(m, c + 1, nn); lemma_bus_pos(m, c as int); lemma_addr(p); }
%at pre_loop 1
let ghost v = m[c as int]@;
proof { assert(t0 + fptrs_of(v, base, 0) =~= t0); }
%loop 1
    v == m[c as int]@, derefs(it_1.items()) == v, 0 <= it_1.pos() <= v.len(), base == a_field(p) + 4 * bus_words(m, c as int), base >= 0,
    pos == base + 4 * bus_len(v, it_1.pos()), base + 4 * bus_len(v, v.len() as int) < 0x1_0000_0000, txt(bus_fields@, t0 + fptrs_of(v, base, it_1.pos())),
%at loop_start 1
let ghost k = it_1.pos() - 1;
proof { assert(*s == v[k]); lemma_fbus_mono(v, k + 1, v.len() as int); lemma_fbus_mono(v, k, v.len() as int); lemma_bus_len(v, k); lemma_4(pos as int); lemma_ext(bus_fields@, t0 + fptrs_of(v, base, k), pos as int);
    assert((t0 + fptrs_of(v, base, k)).push(pos as int) =~= t0 + fptrs_of(v, base, k + 1)); }
%fn generate_data_field_info ret=r
requires pok(*producer), field_map@ == producer.busid_field_info@, bus_fits(field_map@, 4 * (producer.size_32_bit + 2))
ensures txt(r@, flds(field_map@, 4 * (producer.size_32_bit + 2), n_bus(*producer)))
%at pre_loop 0
let ghost m = field_map@; let ghost p = *producer; let ghost nn = n_bus(p); let ghost w = 4 * (p.size_32_bit + 2);
proof { lemma_txt_empty(); }
%loop 0
    m == field_map@, p == *producer, pok(p), m == p.busid_field_info@, nn == n_bus(p), nn == m.len(), 0 <= it_0.pos() <= nn, it_0.items().len() == nn, w == 4 * (p.size_32_bit + 2), txt(field_info@, flds(m, w, it_0.pos())), bus_fits(m, w),
%at loop_start 0
let ghost t0 = flds(m, w, c as int);
%at pre_loop 1
let ghost v = m[c as int]@;
proof { assert(t0 + flds_of(v, w, 0) =~= t0); }
%loop 1
    v == m[c as int]@, 0 <= c < m.len(), derefs(it_1.items()) == v, 0 <= it_1.pos() <= v.len(), bus_fits(m, w), w == 4 * (p.size_32_bit + 2), p == *producer, pok(p),
    txt(field_info@, t0 + flds_of(v, w, it_1.pos())),
%at loop_start 1
let ghost k = it_1.pos() - 1; let ghost t1 = t0 + flds_of(v, w, k); let ghost off = s.offset * w; let ghost l0 = s.dimensions@;
proof { let x = m[c as int]@[k]; assert(*s == x); lemma_off(s.offset as int, p.size_32_bit + 2); lemma_4(off); lemma_4(s.size as int); lemma_ext(field_info@, t1, off);
    if s.dimensions@.len() == 0 { lemma_tail_words(s.dimensions@, 0); } if s.bus_id is Some { lemma_4(s.bus_id->0 as int); lemma_ext_all(s.bus_id->0 as int); } }
%at pre_loop 2
let ghost l = s.dimensions@; let ghost t2 = t1.push(off);
proof { assert(t2 + tail_words(l, 1) =~= t2); }
%loop 2
    l == s.dimensions@, it_2.items().len() == (if l.len() >= 1 { l.len() - 1 } else { 0 }), forall|i: int| 0 <= i < it_2.items().len() ==> #[trigger] it_2.items()[i] == 1 + i, it_2.pos() >= 0, txt(field_info@, t2 + tail_words(l, it_2.pos() + 1)), forall|i: int| 0 <= i < l.len() ==> at4(#[trigger] l[i] as int),
%at loop_start 2
proof { lemma_4(l[i as int] as int); lemma_ext(field_info@, t2 + tail_words(l, i as int), l[i as int] as int); assert((t2 + tail_words(l, i as int)).push(l[i as int] as int) =~= t2 + tail_words(l, i + 1)); }
%at after_loop 2
proof { lemma_ext(field_info@, t2 + tail_words(l, l.len() as int), s.size as int); }
%at loop_end 1
proof {
    let a = if l0.len() > 0 { (t1.push(off) + tail_words(l0, l0.len() as int)).push(s.size as int) } else { t1.push(off) };
    let b = if s.bus_id is Some { a.push(s.bus_id->0 as int) } else { a };
    assert(b =~= t1 + fld_rec(*s, w));
    assert(t1 + fld_rec(*s, w) =~= t0 + flds_of(v, w, k + 1));
}
%verbatim
// ---- constants: short form when it fits, and always the Montgomery form for R = 2^(64 * number of 64-bit limbs)
pub open spec fn limbs(p: int) -> nat { ((blen(p) + 63) / 64) as nat }
pub open spec fn signed_of(n: int, p: int) -> int { if n > p / 2 { n - p } else { n } }
pub open spec fn fits32(x: int) -> bool { -0x8000_0000 <= x <= 0x7fff_ffff }
pub open spec fn mont(n: int, p: int) -> int { (n * ipow2(64 * limbs(p))) % p }
pub open spec fn short_head(x: int) -> Seq<u8> { le(x % 0x1_0000_0000, 4) + seq![0u8, 0u8, 0u8, 0x40u8] }
pub open spec fn long_head() -> Seq<u8> { seq![0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0xC0u8] }
pub open spec fn const_bytes(v: int, p: int, w: nat) -> Seq<u8> {
    (if fits32(signed_of(v % p, p)) { short_head(signed_of(v % p, p)) } else { long_head() }) + le(mont(v % p, p), w)
}
pub open spec fn consts_bytes(l: Seq<String>, p: int, w: nat, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { consts_bytes(l, p, w, n - 1) + const_bytes(num_val(l[n - 1]@), p, w) } }
pub proof fn lemma_canon(v: int, p: int) requires p > 0 ensures trem(trem(v, p) + p, p) == v % p, 0 <= v % p < p
{
    assert(v == p * (v / p) + v % p) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, p); }
    vstd::arithmetic::div_mod::lemma_mod_bound(v, p);
    let q = v / p; let r = v % p;
    if v >= 0 {
        assert(trem(v, p) == r) by (nonlinear_arith) requires trem(v, p) == v - (v / p) * p, v == p * (v / p) + r;
    } else {
        let m = -v;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, p); vstd::arithmetic::div_mod::lemma_mod_bound(m, p);
        assert(trem(v, p) == -(m % p)) by (nonlinear_arith) requires trem(v, p) == v - (-(m / p)) * p, m == -v, m == p * (m / p) + m % p;
        let k = q + m / p;
        assert(-(m % p) == k * p + r) by (nonlinear_arith) requires k == q + m / p, m == -v, m == p * (m / p) + m % p, v == p * q + r;
        assert(k == 0 || k == -1) by (nonlinear_arith) requires -(m % p) == k * p + r, 0 <= m % p < p, 0 <= r < p;
        assert(-1 * p == -p); assert(0 * p == 0);
    }
    let t = trem(v, p);
    let x = t + p;
    assert(t == r || t == r - p);
    assert(x >= 0);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, p);
    assert(trem(x, p) == x % p) by (nonlinear_arith) requires trem(x, p) == x - (x / p) * p, x == p * (x / p) + x % p;
    if t == r { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(r, p); vstd::arithmetic::div_mod::lemma_small_mod(r as nat, p as nat); } else { vstd::arithmetic::div_mod::lemma_small_mod(r as nat, p as nat); }
}
pub proof fn lemma_trem_nonneg(a: int, p: int) requires a >= 0, p > 0 ensures trem(a, p) == a % p, 0 <= a % p < p
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, p); vstd::arithmetic::div_mod::lemma_mod_bound(a, p); assert(trem(a, p) == a % p) by (nonlinear_arith) requires trem(a, p) == a - (a / p) * p, a == p * (a / p) + a % p; }
pub proof fn lemma_radix() ensures forall|b: Seq<u8>| #![trigger digits_val(b, 16)] b.len() == 9 && b[0] == 49 && (forall|i: int| 1 <= i < 9 ==> #[trigger] b[i] == 48) ==> digits_val(b, 16) == 0x1_0000_0000 && plain(b, 16)
{
    assert forall|b: Seq<u8>| #![trigger digits_val(b, 16)] b.len() == 9 && b[0] == 49 && (forall|i: int| 1 <= i < 9 ==> #[trigger] b[i] == 48) implies digits_val(b, 16) == 0x1_0000_0000 && plain(b, 16) by {
        lemma_zero_digits(b, 9);
    }
}
pub proof fn lemma_zero_digits(b: Seq<u8>, n: int) requires 1 <= n <= 9, b.len() == n, b[0] == 49, forall|i: int| 1 <= i < n ==> #[trigger] b[i] == 48 ensures digits_val(b, 16) == ipow(16, (n - 1) as nat), n == 9 ==> ipow(16, 8) == 0x1_0000_0000 decreases n
{
    if n > 1 { lemma_zero_digits(b.drop_last(), n - 1); assert(b.last() == 48); } else { assert(b.drop_last().len() == 0); assert(digits_val(b.drop_last(), 16) == 0); }
    assert(ipow(16, 8) == 0x1_0000_0000) by { reveal_with_fuel(ipow, 9); }
}
pub proof fn lemma_pow256_2(w: nat) ensures pow256(w) == ipow2(8 * w) decreases w
{ if w > 0 { lemma_pow256_2((w - 1) as nat); lemma_ipow2_add(8, (8 * w - 8) as nat); reveal_with_fuel(ipow2, 9); assert(ipow2(8) == 256); } }
pub proof fn lemma_blen_256(p: int, w: nat) requires 0 < p < pow256(w) ensures 1 <= blen(p) <= 8 * w
{ lemma_blen_bound(p); lemma_pow256_2(w); if blen(p) > 8 * w { lemma_ipow2_mono(8 * w, (blen(p) - 1) as nat); } }
pub proof fn lemma_head_lits() ensures wf("\\00\\00\\00\\40"@), datum("\\00\\00\\00\\40"@) == seq![0u8, 0u8, 0u8, 0x40u8], wf("\\00\\00\\00\\00\\00\\00\\00\\C0"@), datum("\\00\\00\\00\\00\\00\\00\\00\\C0"@) == long_head()
{
    reveal_strlit("\\00\\00\\00\\40"); reveal_strlit("\\00\\00\\00\\00\\00\\00\\00\\C0");
    let e = Seq::<char>::empty();
    let a = seq!['\\', '0', '0']; let c = seq!['\\', '4', '0']; let d = seq!['\\', 'C', '0'];
    lemma_front('4', '0', e, c + e); lemma_front('C', '0', e, d + e);
    let c1 = c + e; let c2 = a + c1; let c3 = a + c2; let c4 = a + c3;
    lemma_front('0', '0', c1, c2); lemma_front('0', '0', c2, c3); lemma_front('0', '0', c3, c4);
    assert("\\00\\00\\00\\40"@ =~= c4); assert(datum(c4) =~= seq![0u8, 0u8, 0u8, 0x40u8]);
    let d1 = d + e; let d2 = a + d1; let d3 = a + d2; let d4 = a + d3; let d5 = a + d4; let d6 = a + d5; let d7 = a + d6; let d8 = a + d7;
    lemma_front('0', '0', d1, d2); lemma_front('0', '0', d2, d3); lemma_front('0', '0', d3, d4); lemma_front('0', '0', d4, d5); lemma_front('0', '0', d5, d6); lemma_front('0', '0', d6, d7); lemma_front('0', '0', d7, d8);
    assert("\\00\\00\\00\\00\\00\\00\\00\\C0"@ =~= d8); assert(datum(d8) =~= long_head());
}
%end
%fn generate_data_constants ret=r ops
requires 1 <= producer.size_32_bit < 0x100_0000, numeral(producer.prime@), 2 < num_val(producer.prime@) < pow256((4 * producer.size_32_bit) as nat), forall|i: int| 0 <= i < constant_list@.len() ==> numeral((#[trigger] constant_list@[i])@)
ensures wf(r@), datum(r@) == consts_bytes(constant_list@, num_val(producer.prime@), (4 * producer.size_32_bit) as nat, constant_list@.len() as int)
%at pre_loop 0
let ghost l = constant_list@; let ghost pp = num_val(producer.prime@); let ghost w = (4 * producer.size_32_bit) as nat;
proof { lemma_txt_empty(); }
%loop 0
    l == constant_list@, derefs(it_0.items()) == l, 0 <= it_0.pos() <= l.len(), 1 <= producer.size_32_bit < 0x100_0000, w == 4 * producer.size_32_bit, numeral(producer.prime@), pp == num_val(producer.prime@), 2 < pp < pow256(w), forall|i: int| 0 <= i < l.len() ==> numeral((#[trigger] l[i])@),
    wf(constant_list_data@), datum(constant_list_data@) == consts_bytes(l, pp, w, it_0.pos()),
%at loop_start 0
let ghost k = it_0.pos() - 1; let ghost v = num_val(l[k]@); let ghost t0 = constant_list_data@;
proof {
    assert(*s == l[k]); lemma_canon(v, pp); lemma_head_lits(); lemma_blen_all(); lemma_blen_256(pp, w);
    let mr = ipow2(64 * limbs(pp)); lemma_ipow_2(64 * limbs(pp));
    let m = (v % pp) * mr;
    assert(m >= 0) by (nonlinear_arith) requires m == (v % pp) * mr, v % pp >= 0, mr > 0;
    assert((v % pp) * (1 * mr) == m);
    lemma_trem_nonneg(m, pp); lemma_radix();
    lemma_4(signed_of(v % pp, pp) % 0x1_0000_0000);
    assert forall|t: Seq<char>, u: Seq<char>| wf(t) && wf(u) implies wf(#[trigger] (t + u)) && datum(t + u) == datum(t) + datum(u) by { lemma_datum_add(t, u); }
}
%at loop_end 0
proof {
    assert(consts_bytes(l, pp, w, k + 1) == consts_bytes(l, pp, w, k) + const_bytes(v, pp, w));
    assert(datum(constant_list_data@) =~= consts_bytes(l, pp, w, k) + const_bytes(v, pp, w));
}
%fn default_memory_for_stack_kib ret=r
ensures r <= 0x1_0000
%fn get_initial_size_of_memory ret=r
requires pok(*producer)
ensures 65536 * r >= a_stack(*producer)
%at start
proof { lemma_addr(*producer); }
%verbatim
// ---- the data lines: (data (i32.const ADDRESS) "TEXT")
pub open spec fn line(a: int, t: Seq<char>) -> Seq<char> { Seq::<char>::empty() + "(data (i32.const "@ + dec(a) + ") \""@ + t + "\")"@ }
#[verifier::opaque]
pub open spec fn has(l: Seq<String>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i])@ == s }
// the lines put the bytes b at address a
#[verifier::opaque]
pub open spec fn seg(l: Seq<String>, a: int, b: Seq<u8>) -> bool { exists|t: Seq<char>| wf(t) && datum(t) == b && has(l, #[trigger] line(a, t)) }
pub open spec fn head80() -> Seq<u8> { seq![0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0x80u8] }
pub open spec fn msg(s: Seq<char>, size: int) -> Seq<char> { if s.len() < size { s } else { s.take(size - 1) } }
pub open spec fn mline(a: int, s: Seq<char>) -> Seq<char> { Seq::<char>::empty() + "(data (i32.const "@ + dec(a) + ") \""@ + s + "\\00\")"@ }
pub proof fn lemma_has_push(l: Seq<String>, s: String, x: Seq<char>) requires has(l, x) || s@ == x ensures has(l.push(s), x)
{ reveal(has); if has(l, x) { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i])@ == x; assert(l.push(s)[i]@ == x); } else { assert(l.push(s)[l.len() as int]@ == x); } }
pub proof fn lemma_lines() ensures
    forall|l: Seq<String>, s: String, p: WASMProducer| #![trigger l.push(s), hash_seg(l, p)] hash_seg(l, p) ==> hash_seg(l.push(s), p),
    forall|l: Seq<String>, s: String, a: int, b: Seq<u8>| #![trigger l.push(s), seg(l, a, b)] seg(l, a, b) ==> seg(l.push(s), a, b),
    forall|l: Seq<String>, s: String, x: Seq<char>| #![trigger l.push(s), has(l, x)] has(l, x) ==> has(l.push(s), x),
    forall|l: Seq<String>, s: String, a: int, t: Seq<char>| #![trigger l.push(s), Seq::<char>::empty() + "(data (i32.const "@ + dec(a) + ") \""@ + t + "\")"@] s@ == Seq::<char>::empty() + "(data (i32.const "@ + dec(a) + ") \""@ + t + "\")"@ && wf(t) ==> seg(l.push(s), a, datum(t)),
    forall|l: Seq<String>, s: String, a: int, t: Seq<char>, u: Seq<char>| #![trigger l.push(s), Seq::<char>::empty() + "(data (i32.const "@ + dec(a) + ") \""@ + t + u + "\")"@] s@ == Seq::<char>::empty() + "(data (i32.const "@ + dec(a) + ") \""@ + t + u + "\")"@ && wf(t) && wf(u) ==> seg(l.push(s), a, datum(t) + datum(u)),
    forall|l: Seq<String>, s: String| #![trigger l.push(s)] has(l.push(s), s@),
{
    reveal(seg); reveal(hash_seg);
    assert forall|l: Seq<String>, s: String, a: int, b: Seq<u8>| #![trigger l.push(s), seg(l, a, b)] seg(l, a, b) implies seg(l.push(s), a, b) by {
        let t = choose|t: Seq<char>| wf(t) && datum(t) == b && has(l, #[trigger] line(a, t)); lemma_has_push(l, s, line(a, t)); }
    assert forall|l: Seq<String>, s: String, p: WASMProducer| #![trigger l.push(s), hash_seg(l, p)] hash_seg(l, p) implies hash_seg(l.push(s), p) by {
        let m = choose|m: Seq<Slot>| m.len() == n_slots(p.main_input_list@.len() as int) && hash_ok(m, p.main_input_list@) && #[trigger] seg(l, a_hash(p), table_bytes(m, m.len() as int)); assert(seg(l.push(s), a_hash(p), table_bytes(m, m.len() as int))); }
    assert forall|l: Seq<String>, s: String, x: Seq<char>| #![trigger l.push(s), has(l, x)] has(l, x) implies has(l.push(s), x) by { lemma_has_push(l, s, x); }
    assert forall|l: Seq<String>, s: String| #![trigger l.push(s)] has(l.push(s), s@) by { lemma_has_push(l, s, s@); }
    assert forall|l: Seq<String>, s: String, a: int, t: Seq<char>| #![trigger l.push(s), Seq::<char>::empty() + "(data (i32.const "@ + dec(a) + ") \""@ + t + "\")"@] s@ == Seq::<char>::empty() + "(data (i32.const "@ + dec(a) + ") \""@ + t + "\")"@ && wf(t) implies seg(l.push(s), a, datum(t)) by { lemma_has_push(l, s, line(a, t)); }
    assert forall|l: Seq<String>, s: String, a: int, t: Seq<char>, u: Seq<char>| #![trigger l.push(s), Seq::<char>::empty() + "(data (i32.const "@ + dec(a) + ") \""@ + t + u + "\")"@] s@ == Seq::<char>::empty() + "(data (i32.const "@ + dec(a) + ") \""@ + t + u + "\")"@ && wf(t) && wf(u) implies seg(l.push(s), a, datum(t) + datum(u)) by {
        lemma_datum_add(t, u); assert(s@ =~= line(a, t + u)); lemma_has_push(l, s, line(a, t + u)); }
}
pub proof fn lemma_head80() ensures wf("\\00\\00\\00\\00\\00\\00\\00\\80"@), datum("\\00\\00\\00\\00\\00\\00\\00\\80"@) == head80()
{
    reveal_strlit("\\00\\00\\00\\00\\00\\00\\00\\80");
    let e = Seq::<char>::empty();
    let a = seq!['\\', '0', '0']; let d = seq!['\\', '8', '0'];
    lemma_front('8', '0', e, d + e);
    let d1 = d + e; let d2 = a + d1; let d3 = a + d2; let d4 = a + d3; let d5 = a + d4; let d6 = a + d5; let d7 = a + d6; let d8 = a + d7;
    lemma_front('0', '0', d1, d2); lemma_front('0', '0', d2, d3); lemma_front('0', '0', d3, d4); lemma_front('0', '0', d4, d5); lemma_front('0', '0', d5, d6); lemma_front('0', '0', d6, d7); lemma_front('0', '0', d7, d8);
    assert("\\00\\00\\00\\00\\00\\00\\00\\80"@ =~= d8); assert(datum(d8) =~= head80());
}
// what the compiler hands over for the tables
pub open spec fn dok(p: WASMProducer) -> bool {
    &&& pok(p) && 1 <= p.size_32_bit
    &&& numeral(p.prime@) && 2 < num_val(p.prime@) < pow256((4 * p.size_32_bit) as nat)
    &&& io_fits(p.io_map@, 4 * (p.size_32_bit + 2)) && bus_fits(p.busid_field_info@, 4 * (p.size_32_bit + 2))
    &&& forall|i: int| 0 <= i < p.main_input_list@.len() ==> { let x = #[trigger] p.main_input_list@[i]; x.start != 0 && at4(x.start as int) && at4(x.size as int) }
    &&& forall|i: int| 0 <= i < p.witness_to_signal_list@.len() ==> at4(#[trigger] p.witness_to_signal_list@[i] as int)
    &&& forall|i: int| 0 <= i < p.field_tracking@.len() ==> numeral((#[trigger] p.field_tracking@[i])@)
    &&& forall|i: int| 0 <= i < p.message_list@.len() ==> ascii((#[trigger] p.message_list@[i])@)
    &&& forall|i: int| 0 <= i < p.string_table@.len() ==> ascii((#[trigger] p.string_table@[i])@)
}
#[verifier::opaque]
pub open spec fn hash_seg(l: Seq<String>, p: WASMProducer) -> bool { exists|m: Seq<Slot>| m.len() == n_slots(p.main_input_list@.len() as int) && hash_ok(m, p.main_input_list@) && #[trigger] seg(l, a_hash(p), table_bytes(m, m.len() as int)) }
pub open spec fn tables(l: Seq<String>, p: WASMProducer) -> bool {
    let w = 4 * (p.size_32_bit + 2); let fw = (4 * p.size_32_bit) as nat;
    &&& seg(l, 0, le(a_stack(p), 4))
    &&& seg(l, a_prime(p), le(num_val(p.prime@), fw))
    &&& seg(l, a_shared(p) - 8, head80())
    &&& hash_seg(l, p)
    &&& seg(l, a_witness(p), words(ints(p.witness_to_signal_list@)))
    &&& seg(l, a_signals(p), head80() + le(1, fw))
    &&& seg(l, a_inst(p), words(inst_ptrs(p.io_map@, a_ioptr(p), n_inst(p))))
    &&& seg(l, a_ioptr(p), words(rec_ptrs(p.io_map@, a_io(p), n_inst(p))))
    &&& seg(l, a_io(p), words(recs(p.io_map@, w, n_inst(p))))
    &&& seg(l, a_bus(p), words(bus_ptrs(p.busid_field_info@, a_fieldptr(p), n_bus(p))))
    &&& seg(l, a_fieldptr(p), words(fld_ptrs(p.busid_field_info@, a_field(p), n_bus(p))))
    &&& seg(l, a_field(p), words(flds(p.busid_field_info@, w, n_bus(p))))
}
pub open spec fn msgs(l: Seq<String>, p: WASMProducer, n: int) -> bool { forall|i: int| 0 <= i < n ==> has(l, #[trigger] mline(a_messages(p) + i * p.size_of_message_in_bytes, msg(p.message_list@[i]@, p.size_of_message_in_bytes as int))) }
pub open spec fn strs(l: Seq<String>, p: WASMProducer, n: int) -> bool { forall|i: int| 0 <= i < n ==> has(l, #[trigger] mline(a_strings(p) + i * p.size_of_message_in_bytes, msg(p.string_table@[i]@, p.size_of_message_in_bytes as int))) }
pub proof fn lemma_idx(i: int, n: int, s: int) requires 0 <= i < n, 0 <= s ensures 0 <= i * s, i * s + s <= n * s, i * s <= s * n, n * s == s * n { assert(i * s + s <= n * s) by (nonlinear_arith) requires i + 1 <= n, s >= 0; assert(0 <= i * s) by (nonlinear_arith) requires i >= 0, s >= 0; assert(n * s == s * n) by (nonlinear_arith); }
%end
%fn generate_data_list ret=r
%attr verifier::rlimit(100)
requires dok(*producer)
ensures tables(r@, *producer), msgs(r@, *producer, producer.message_list@.len() as int), strs(r@, *producer, producer.string_table@.len() as int),
    seg(r@, a_consts(*producer), consts_bytes(producer.field_tracking@, num_val(producer.prime@), (4 * producer.size_32_bit) as nat, producer.field_tracking@.len() as int))
%at start
let ghost pr = *producer;
proof { lemma_lines(); lemma_head80(); lemma_addr(pr); lemma_4(a_stack(pr)); lemma_pow16((4 * pr.size_32_bit) as nat); assert(0 <= 1 < pow256((4 * pr.size_32_bit) as nat)); }
%at pre_loop 0
proof {
    let fw = (4 * pr.size_32_bit) as nat; let l = wdata@; let w = 4 * (pr.size_32_bit + 2);
    assert(seg(l, 0, le(a_stack(pr), 4)));
    assert(seg(l, a_prime(pr), le(num_val(pr.prime@), fw)));
    assert(seg(l, a_shared(pr) - 8, head80()));
    assert(seg(l, a_hash(pr), table_bytes(map@, map@.len() as int)));
    assert(hash_seg(l, pr)) by { reveal(hash_seg); }
    assert(seg(l, a_witness(pr), words(ints(pr.witness_to_signal_list@))));
    assert(seg(l, a_signals(pr), head80() + le(1, fw)));
    assert(seg(l, a_inst(pr), words(inst_ptrs(pr.io_map@, a_ioptr(pr), n_inst(pr)))));
    assert(seg(l, a_field(pr), words(flds(pr.busid_field_info@, w, n_bus(pr)))));
    assert(tables(l, pr));
}
%loop 0
    pr == *producer, dok(pr), *ml == pr.message_list, m == a_messages(pr), tables(wdata@, pr), msgs(wdata@, pr, it_0.pos()), 0 <= it_0.pos() <= pr.message_list@.len(),
%at loop_start 0
let ghost w0 = wdata@;
proof { lemma_lines(); lemma_addr(pr); lemma_idx(i as int, pr.message_list@.len() as int, pr.size_of_message_in_bytes as int); }
%loop 1
    pr == *producer, dok(pr), *st == pr.string_table, s == a_strings(pr), tables(wdata@, pr), msgs(wdata@, pr, pr.message_list@.len() as int), strs(wdata@, pr, it_1.pos()), 0 <= it_1.pos() <= pr.string_table@.len(),
%at loop_start 1
let ghost w0 = wdata@;
proof { lemma_lines(); lemma_addr(pr); lemma_idx(i as int, pr.string_table@.len() as int, pr.size_of_message_in_bytes as int); }
%at after_loop 1
proof { lemma_lines(); }
%mod cprod
%verbatim
use super::comp::*;
%end
%source code_producers/src/c_elements/mod.rs
%item CProducer
%verbatim
pub open spec fn c_slots(l: int) -> int { slots(l) }
%end
%fn CProducer::get_prime ret=r
ensures r@ == self.prime@
%fn CProducer::get_main_input_list ret=r
ensures *r == self.main_input_list
%fn CProducer::get_input_hash_map_entry_size ret=r
requires self.main_input_list@.len() <= 0x8000_0000
ensures r == c_slots(self.main_input_list@.len() as int)
%fn CProducer::get_witness_to_signal_list ret=r
ensures *r == self.witness_to_signal_list
%fn CProducer::get_io_map ret=r
ensures *r == self.io_map
%fn CProducer::get_field_constant_list ret=r
ensures *r == self.field_tracking
%fn CProducer::get_size_32_bit ret=r
ensures r == self.size_32_bit
%fn CProducer::get_busid_field_info ret=r
ensures *r == self.busid_field_info
%mod cgen
%verbatim
use super::comp::*; use super::cprod::*;
use super::gen::{at4, words, lemma_words_push, lemma_words_add, lemma_words_len, lemma_4, ints, lemma_canon, lemma_trem_nonneg, lemma_radix, lemma_blen_256, limbs, signed_of, fits32, mont, short_head, long_head, const_bytes, consts_bytes, nxt, dist, lemma_free};
use super::prod::{tail_words, lemma_tail_words};
broadcast use {lemma_rev_rev_b, lemma_np2};
pub type Slot = (u64, u64, u64);
pub open spec fn reach(m: Seq<Slot>, p: int, q: int, k: nat) -> bool decreases k { if k == 0 { p == q } else { 0 <= p < m.len() && m[p].1 != 0 && reach(m, nxt(p, m.len() as int), q, (k - 1) as nat) } }
pub open spec fn entry(x: InputInfo) -> Slot { (fnv(x.name@), x.start as u64, x.size as u64) }
pub open spec fn home(x: InputInfo, size: int) -> int { (fnv(x.name@) as usize as int) % size }
pub open spec fn found(m: Seq<Slot>, x: InputInfo) -> bool { exists|q: int, k: nat| 0 <= q < m.len() && #[trigger] reach(m, home(x, m.len() as int), q, k) && m[q] == entry(x) }
pub open spec fn hash_ok(m: Seq<Slot>, l: Seq<InputInfo>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] found(m, l[i])
    &&& forall|q: int| 0 <= q < m.len() && (#[trigger] m[q]).1 != 0 ==> exists|i: int| 0 <= i < l.len() && m[q] == entry(#[trigger] l[i])
    &&& forall|q: int| 0 <= q < m.len() && (#[trigger] m[q]).1 == 0 ==> m[q] == (0u64, 0u64, 0u64)
}
pub proof fn lemma_reach_push(m: Seq<Slot>, p: int, q: int, k: nat) requires reach(m, p, q, k), 0 <= p < m.len(), 0 <= q < m.len(), m[q].1 != 0 ensures reach(m, p, nxt(q, m.len() as int), k + 1) decreases k
{ if k > 0 { lemma_reach_push(m, nxt(p, m.len() as int), q, (k - 1) as nat); } else { assert(reach(m, nxt(p, m.len() as int), nxt(q, m.len() as int), 0)); } }
pub proof fn lemma_reach_update(m: Seq<Slot>, j: int, e: Slot, p: int, q: int, k: nat) requires reach(m, p, q, k), 0 <= j < m.len(), e.1 != 0 ensures reach(m.update(j, e), p, q, k) decreases k
{ if k > 0 { lemma_reach_update(m, j, e, nxt(p, m.len() as int), q, (k - 1) as nat); } }
pub proof fn lemma_found_update(m: Seq<Slot>, j: int, e: Slot, x: InputInfo) requires found(m, x), x.start != 0, 0 <= j < m.len(), e.1 != 0, m[j].1 == 0 ensures found(m.update(j, e), x)
{ let (q, k) = choose|q: int, k: nat| 0 <= q < m.len() && #[trigger] reach(m, home(x, m.len() as int), q, k) && m[q] == entry(x); lemma_reach_update(m, j, e, home(x, m.len() as int), q, k); assert(m.update(j, e)[q] == entry(x)); }

pub open spec fn slot_bytes(s: Slot) -> Seq<u8> { le(s.0 as int, 8) + le(s.1 as int, 8) + le(s.2 as int, 8) }
pub open spec fn table_bytes(m: Seq<Slot>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { table_bytes(m, n - 1) + slot_bytes(m[n - 1]) } }
pub open spec fn words8(s: Seq<int>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { words8(s, n - 1) + le(s[n - 1], 8) } }
%end
%source code_producers/src/c_elements/c_code_generator.rs
%fn generate_hash_map ret=r
requires signal_name_list@.len() <= size, forall|i: int| 0 <= i < signal_name_list@.len() ==> (#[trigger] signal_name_list@[i]).start != 0
ensures r@.len() == size, hash_ok(r@, signal_name_list@)
%at pre_loop 0
let ghost l = signal_name_list@; let ghost mut pos: Seq<int> = Seq::empty();
%loop 0
    l == signal_name_list@, l.len() <= size, forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j]).start != 0,
    hash_map@.len() == size, 0 <= it_0.pos() <= l.len(), pos.len() == it_0.pos(),
    forall|j: int| 0 <= j < it_0.pos() ==> #[trigger] found(hash_map@, l[j]),
    forall|q: int| 0 <= q < size && (#[trigger] hash_map@[q]).1 != 0 ==> pos.contains(q) && exists|i: int| 0 <= i < l.len() && hash_map@[q] == entry(#[trigger] l[i]),
    forall|q: int| 0 <= q < size && (#[trigger] hash_map@[q]).1 == 0 ==> hash_map@[q] == (0u64, 0u64, 0u64),
%at pre_loop 1
let ghost m = hash_map@; let ghost h0 = home(l[i as int], size as int); let ghost mut k: nat = 0;
let ghost f = lemma_free(pos, size as int);
proof { assert(m[f].1 == 0); assert(reach(m, h0, p as int, 0)); }
%loop 1
    m == hash_map@, m.len() == size, 0 <= p < size, 0 <= h0 < size, 0 <= f < size, m[f].1 == 0, reach(m, h0, p as int, k),
decreases dist(p as int, f, size as int)
%at loop_start 1
proof { lemma_reach_push(m, h0, p as int, k); k = k + 1; if p + 1 == size { assert((p + 1) as int % size as int == 0) by (nonlinear_arith) requires p + 1 == size; } else { vstd::arithmetic::div_mod::lemma_small_mod((p + 1) as nat, size as nat); } }
%at loop_end 0
proof {
    let e = entry(l[i as int]);
    assert(hash_map@ =~= m.update(p as int, e));
    lemma_reach_update(m, p as int, e, h0, p as int, k);
    assert(found(hash_map@, l[i as int]));
    assert forall|j: int| 0 <= j < i implies #[trigger] found(hash_map@, l[j]) by { lemma_found_update(m, p as int, e, l[j]); }
    let pos0 = pos;
    pos = pos.push(p as int);
    assert forall|q: int| 0 <= q < size && (#[trigger] hash_map@[q]).1 != 0 implies pos.contains(q) && exists|i: int| 0 <= i < l.len() && hash_map@[q] == entry(#[trigger] l[i]) by {
        if q == p { assert(pos[pos0.len() as int] == q); assert(hash_map@[q] == entry(l[i as int])); } else { assert(m[q].1 != 0); assert(pos0.contains(q)); let w = choose|w: int| 0 <= w < pos0.len() && pos0[w] == q; assert(pos[w] == q); }
    }
}
%fn generate_dat_from_hash_map ret=r
ensures r@ == table_bytes(map@, map@.len() as int)
%loop 0
    derefs(it_0.items()) == map@, 0 <= it_0.pos() <= map@.len(), hash_map_data@ == table_bytes(map@, it_0.pos()),
%at loop_start 0
let ghost q = it_0.pos() - 1;
proof { assert(map@[q] == (*h, *p, *s)); }
%at loop_end 0
proof { assert(hash_map_data@ =~= table_bytes(map@, q) + slot_bytes(map@[q])); }
%fn generate_dat_witness_to_signal_list ret=r
ensures r@ == words8(ints(signal_list@), signal_list@.len() as int)
%loop 0
    derefs(it_0.items()) == signal_list@, 0 <= it_0.pos() <= signal_list@.len(), signal_list_data@ == words8(ints(signal_list@), it_0.pos()),
%at loop_start 0
let ghost q = it_0.pos() - 1;
proof { assert(signal_list@[q] == *s); assert(ints(signal_list@)[q] == *s); }
%fn generate_dat_constant_list ret=r ops
%attr verifier::rlimit(200)
requires 1 <= producer.size_32_bit < 0x100_0000, numeral(producer.prime@), 2 < num_val(producer.prime@) < pow256((4 * producer.size_32_bit) as nat), forall|i: int| 0 <= i < constant_list@.len() ==> numeral((#[trigger] constant_list@[i])@)
ensures r@ == consts_bytes(constant_list@, num_val(producer.prime@), (4 * producer.size_32_bit) as nat, constant_list@.len() as int)
%at pre_loop 0
let ghost l = constant_list@; let ghost pp = num_val(producer.prime@); let ghost w = (4 * producer.size_32_bit) as nat;
%loop 0
    l == constant_list@, derefs(it_0.items()) == l, 0 <= it_0.pos() <= l.len(), 1 <= producer.size_32_bit < 0x100_0000, w == 4 * producer.size_32_bit, numeral(producer.prime@), pp == num_val(producer.prime@), 2 < pp < pow256(w), forall|i: int| 0 <= i < l.len() ==> numeral((#[trigger] l[i])@),
    constant_list_data@ == consts_bytes(l, pp, w, it_0.pos()),
%at loop_start 0
let ghost k = it_0.pos() - 1; let ghost cv = num_val(l[k]@); let ghost t0 = constant_list_data@;
let ghost sg = signed_of(cv % pp, pp); let ghost u4 = sg % 0x1_0000_0000;
let ghost mt = mont(cv % pp, pp);
proof {
    assert(*s == l[k]); lemma_canon(cv, pp); lemma_blen_all(); lemma_blen_256(pp, w);
    lemma_mont(cv % pp, pp); lemma_radix();
    lemma_4(u4); lemma_minle(u4, 4); lemma_minle_len(u4, 4); lemma_minle(mt, w); lemma_minle_len(mt, w);
    lemma_le_consts();
}
%at after_assign n 2
proof { assert(n@ == cv % pp); }
%at after_assign n 3
let ghost hd = if fits32(sg) { short_head(sg) } else { long_head() };
proof { assert(n@ == mt); assert(constant_list_data@ =~= t0 + hd); }
%at pre_loop 1
let ghost d1 = constant_list_data@; let ghost b1 = minle(u4);
proof { assert(d1 =~= t0 + b1); }
%loop 1
    it_1.items().len() == 4 - b1.len(), 0 <= it_1.pos(), constant_list_data@ == d1 + zeros(it_1.pos()),
%at after_loop 1
proof { assert(constant_list_data@ =~= t0 + le(u4, 4)); }
%at pre_loop 2
%loop 2
    it_2.items().len() == 4, 0 <= it_2.pos(), constant_list_data@ == t0 + zeros(it_2.pos()),
%at pre_loop 3
let ghost d3 = constant_list_data@; let ghost b3 = minle(mt);
%loop 3
    it_3.items().len() == w - b3.len(), 0 <= it_3.pos(), constant_list_data@ == d3 + zeros(it_3.pos()),
%at loop_end 0
proof {
    assert(consts_bytes(l, pp, w, k + 1) == consts_bytes(l, pp, w, k) + const_bytes(cv, pp, w));
    assert(constant_list_data@ =~= t0 + hd + le(mt, w));
    assert(constant_list_data@ =~= consts_bytes(l, pp, w, k) + const_bytes(cv, pp, w));
}
%verbatim
pub open spec fn zeros(k: int) -> Seq<u8> { Seq::new(k as nat, |i: int| 0u8) }
pub proof fn lemma_mont(n: int, p: int) requires 0 <= n < p ensures 0 <= n * (1 * ipow2(64 * limbs(p))), trem(n * (1 * ipow2(64 * limbs(p))), p) == mont(n, p), 0 <= mont(n, p) < p
{ let mr = ipow2(64 * limbs(p)); lemma_ipow_2(64 * limbs(p)); assert(1 * mr == mr); assert(n * mr >= 0) by (nonlinear_arith) requires n >= 0, mr > 0; lemma_trem_nonneg(n * mr, p); }
pub proof fn lemma_le_consts() ensures le(0x40000000, 4) == seq![0u8, 0u8, 0u8, 0x40u8], le(0xC0000000, 4) == seq![0u8, 0u8, 0u8, 0xC0u8]
{ reveal_with_fuel(le, 5); assert(le(0x40000000, 4) =~= seq![0u8, 0u8, 0u8, 0x40u8]); assert(le(0xC0000000, 4) =~= seq![0u8, 0u8, 0u8, 0xC0u8]); }
%end
%verbatim
// ---- C: the instances with a table, then for each of them the number of signals and one record per signal
pub open spec fn c_rec(off: int, l: Seq<usize>, size: int, bus: Option<usize>) -> Seq<int> {
    seq![off, if l.len() > 0 { l.len() - 1 } else { 0 }] + tail_words(l, l.len() as int) + seq![size, if bus is Some { bus->0 as int } else { 0 }]
}
pub open spec fn c_recs(v: Seq<IODef>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else { c_recs(v, k - 1) + c_rec(v[k - 1].offset as int, v[k - 1].lengths@, v[k - 1].size as int, v[k - 1].bus_id) } }
pub open spec fn c_insts(m: Map<usize, Vec<IODef>>, ks: Seq<usize>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else { c_insts(m, ks, k - 1) + seq![m[ks[k - 1]]@.len() as int] + c_recs(m[ks[k - 1]]@, m[ks[k - 1]]@.len() as int) } }
pub open spec fn c_io(m: Map<usize, Vec<IODef>>) -> Seq<int> { let ks = bt_keys(m.dom()); ints(ks) + c_insts(m, ks, ks.len() as int) }
pub open spec fn c_fits(off: usize, l: Seq<usize>, size: usize, bus: Option<usize>) -> bool { at4(off as int) && at4(l.len() as int) && at4(size as int) && (bus is Some ==> at4(bus->0 as int)) && forall|i: int| 0 <= i < l.len() ==> at4(#[trigger] l[i] as int) }
pub open spec fn c_io_fits(m: Map<usize, Vec<IODef>>) -> bool {
    &&& forall|c: usize| #[trigger] m.contains_key(c) ==> at4(c as int) && at4(m[c]@.len() as int)
    &&& forall|c: usize, k: int| m.contains_key(c) && 0 <= k < m[c]@.len() ==> { let x = #[trigger] m[c]@[k]; c_fits(x.offset, x.lengths@, x.size, x.bus_id) }
}
pub open spec fn c_flds(v: Seq<FieldData>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else { c_flds(v, k - 1) + c_rec(v[k - 1].offset as int, v[k - 1].dimensions@, v[k - 1].size as int, v[k - 1].bus_id) } }
pub open spec fn c_buses(m: Seq<Vec<FieldData>>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else { c_buses(m, k - 1) + seq![m[k - 1]@.len() as int] + c_flds(m[k - 1]@, m[k - 1]@.len() as int) } }
pub open spec fn c_bus_fits(m: Seq<Vec<FieldData>>) -> bool {
    &&& forall|c: int| 0 <= c < m.len() ==> at4((#[trigger] m[c])@.len() as int)
    &&& forall|c: int, k: int| 0 <= c < m.len() && 0 <= k < m[c]@.len() ==> { let x = #[trigger] m[c]@[k]; c_fits(x.offset, x.dimensions@, x.size, x.bus_id) }
}
// appending a word to the bytes of words
pub open spec fn is_words(b: Seq<u8>, w: Seq<int>) -> bool { b == words(w) }
pub proof fn lemma_wpush() ensures forall|w: Seq<int>, x: int| #![trigger words(w) + le(x, 4)] words(w) + le(x, 4) == words(w.push(x)), words(Seq::empty()) == Seq::<u8>::empty()
{ reveal(words); assert forall|w: Seq<int>, x: int| #![trigger words(w) + le(x, 4)] words(w) + le(x, 4) == words(w.push(x)) by { lemma_words_push(w, x); } }
%end
%fn generate_dat_io_signals_info ret=r
requires c_io_fits(io_map@)
ensures r@ == words(c_io(io_map@))
%at pre_loop 0
let ghost m = io_map@; let ghost ks = bt_keys(m.dom());
proof { lemma_wpush(); assert(ks.len() >= 0); assert(ints(ks).take(0) =~= Seq::<int>::empty()); }
%loop 0
    m == io_map@, ks == bt_keys(m.dom()), btseq_ref(it_0.items(), m), c_io_fits(m), 0 <= it_0.pos() <= ks.len(), io_signals_info@ == words(ints(ks).take(it_0.pos())),
    forall|w: Seq<int>, x: int| #![trigger words(w) + le(x, 4)] words(w) + le(x, 4) == words(w.push(x)),
%at loop_start 0
let ghost i = it_0.pos() - 1;
proof { lemma_key(m, i); assert(*t_ins == ks[i]); assert(ints(ks).take(i).push(*t_ins as int) =~= ints(ks).take(i + 1)); assert(m.contains_key(*t_ins)); }
%at pre_loop 1
let ghost kw = ints(ks);
proof { assert(kw.take(ks.len() as int) =~= kw); assert(kw + c_insts(m, ks, 0) =~= kw); }
%loop 1
    m == io_map@, ks == bt_keys(m.dom()), kw == ints(ks), btseq_ref(it_1.items(), m), c_io_fits(m), 0 <= it_1.pos() <= ks.len(), io_signals_info@ == words(kw + c_insts(m, ks, it_1.pos())),
    forall|w: Seq<int>, x: int| #![trigger words(w) + le(x, 4)] words(w) + le(x, 4) == words(w.push(x)),
%at loop_start 1
let ghost i = it_1.pos() - 1; let ghost d = l_io_def@; let ghost w0 = kw + c_insts(m, ks, i); let ghost w1 = w0.push(d.len() as int);
proof { lemma_key(m, i); assert(*l_io_def == m[ks[i]]); assert(m.contains_key(ks[i])); }
%at pre_loop 2
proof { assert(w1 + c_recs(d, 0) =~= w1); }
%loop 2
    d == l_io_def@, 0 <= i < ks.len(), m.contains_key(ks[i]), d == m[ks[i]]@, c_io_fits(m), derefs(it_2.items()) == d, 0 <= it_2.pos() <= d.len(), io_signals_info@ == words(w1 + c_recs(d, it_2.pos())),
    forall|w: Seq<int>, x: int| #![trigger words(w) + le(x, 4)] words(w) + le(x, 4) == words(w.push(x)),
%at loop_start 2
let ghost k = it_2.pos() - 1; let ghost w2 = w1 + c_recs(d, k); let ghost l = s.lengths@; let ghost w3 = w2.push(s.offset as int).push(if l.len() > 0 { l.len() - 1 } else { 0 });
proof { assert(m[ks[i]]@[k] == *s); lemma_tail_words(l, 0); lemma_tail_words(l, 1); }
%at pre_loop 3
proof { assert(w3 + tail_words(l, 1) =~= w3); assert(w3 + tail_words(l, 0) =~= w3); }
%loop 3
    l == s.lengths@, forall|i: int| 0 <= i < l.len() ==> at4(#[trigger] l[i] as int), it_3.items().len() == (if l.len() >= 1 { l.len() - 1 } else { 0 }), forall|i: int| 0 <= i < it_3.items().len() ==> #[trigger] it_3.items()[i] == 1 + i, it_3.pos() >= 0, io_signals_info@ == words(w3 + tail_words(l, it_3.pos() + 1)),
    forall|w: Seq<int>, x: int| #![trigger words(w) + le(x, 4)] words(w) + le(x, 4) == words(w.push(x)),
%at loop_start 3
let ghost ii = it_3.pos();
proof { assert((w3 + tail_words(l, ii)).push(l[ii] as int) =~= w3 + tail_words(l, ii + 1)); }
%at after_loop 3
proof { assert(io_signals_info@ == words(w3 + tail_words(l, l.len() as int))); }
%at loop_end 2
proof {
    let w4 = w3 + tail_words(l, l.len() as int);
    let b = if s.bus_id is Some { s.bus_id->0 as int } else { 0 };
    assert(io_signals_info@ == words(w4.push(s.size as int).push(b)));
    assert(w4.push(s.size as int).push(b) =~= w2 + c_rec(s.offset as int, l, s.size as int, s.bus_id));
    assert(w2 + c_rec(s.offset as int, l, s.size as int, s.bus_id) =~= w1 + c_recs(d, k + 1));
}
%at loop_end 1
proof { assert(w1 + c_recs(d, d.len() as int) =~= kw + c_insts(m, ks, i + 1)); }
%verbatim
pub proof fn lemma_key(m: Map<usize, Vec<IODef>>, i: int) requires 0 <= i < bt_keys(m.dom()).len() ensures m.contains_key(bt_keys(m.dom())[i])
{ axiom_bt_keys(m.dom()); let ks = bt_keys(m.dom()); assert(ks.to_set().contains(ks[i])); assert(m.dom().contains(ks[i])); }
%end
%fn generate_dat_bus_field_info ret=r
requires c_bus_fits(field_map@)
ensures r@ == words(c_buses(field_map@, field_map@.len() as int))
%at pre_loop 0
let ghost m = field_map@;
proof { lemma_wpush(); }
%loop 0
    m == field_map@, c_bus_fits(m), 0 <= it_0.pos() <= m.len(), it_0.items().len() == m.len(), bus_field_info@ == words(c_buses(m, it_0.pos())),
    forall|w: Seq<int>, x: int| #![trigger words(w) + le(x, 4)] words(w) + le(x, 4) == words(w.push(x)),
%at loop_start 0
let ghost i = it_0.pos() - 1; let ghost d = m[i]@; let ghost w0 = c_buses(m, i); let ghost w1 = w0.push(d.len() as int);
%at pre_loop 1
proof { assert(w1 + c_flds(d, 0) =~= w1); }
%loop 1
    0 <= i < m.len(), d == m[i]@, c_bus_fits(m), derefs(it_1.items()) == d, 0 <= it_1.pos() <= d.len(), bus_field_info@ == words(w1 + c_flds(d, it_1.pos())),
    forall|w: Seq<int>, x: int| #![trigger words(w) + le(x, 4)] words(w) + le(x, 4) == words(w.push(x)),
%at loop_start 1
let ghost k = it_1.pos() - 1; let ghost w2 = w1 + c_flds(d, k); let ghost l = s.dimensions@; let ghost w3 = w2.push(s.offset as int).push(if l.len() > 0 { l.len() - 1 } else { 0 });
proof { assert(m[i]@[k] == *s); lemma_tail_words(l, 0); lemma_tail_words(l, 1); }
%at pre_loop 2
proof { assert(w3 + tail_words(l, 1) =~= w3); assert(w3 + tail_words(l, 0) =~= w3); }
%loop 2
    l == s.dimensions@, forall|i: int| 0 <= i < l.len() ==> at4(#[trigger] l[i] as int), it_2.items().len() == (if l.len() >= 1 { l.len() - 1 } else { 0 }), forall|i: int| 0 <= i < it_2.items().len() ==> #[trigger] it_2.items()[i] == 1 + i, it_2.pos() >= 0, bus_field_info@ == words(w3 + tail_words(l, it_2.pos() + 1)),
    forall|w: Seq<int>, x: int| #![trigger words(w) + le(x, 4)] words(w) + le(x, 4) == words(w.push(x)),
%at loop_start 2
let ghost ii = it_2.pos();
proof { assert((w3 + tail_words(l, ii)).push(l[ii] as int) =~= w3 + tail_words(l, ii + 1)); }
%at after_loop 2
proof { assert(bus_field_info@ == words(w3 + tail_words(l, l.len() as int))); }
%at loop_end 1
proof {
    let w4 = w3 + tail_words(l, l.len() as int);
    let b = if s.bus_id is Some { s.bus_id->0 as int } else { 0 };
    assert(bus_field_info@ == words(w4.push(s.size as int).push(b)));
    assert(w4.push(s.size as int).push(b) =~= w2 + c_rec(s.offset as int, l, s.size as int, s.bus_id));
    assert(w2 + c_rec(s.offset as int, l, s.size as int, s.bus_id) =~= w1 + c_flds(d, k + 1));
}
%at loop_end 0
proof { assert(w1 + c_flds(d, d.len() as int) =~= c_buses(m, i + 1)); }
%verbatim
pub open spec fn cok(p: CProducer) -> bool {
    &&& 1 <= p.size_32_bit < 0x100_0000
    &&& numeral(p.prime@) && 2 < num_val(p.prime@) < pow256((4 * p.size_32_bit) as nat)
    &&& c_io_fits(p.io_map@) && c_bus_fits(p.busid_field_info@)
    &&& p.main_input_list@.len() <= 0x8000_0000
    &&& forall|i: int| 0 <= i < p.main_input_list@.len() ==> (#[trigger] p.main_input_list@[i]).start != 0
    &&& forall|i: int| 0 <= i < p.field_tracking@.len() ==> numeral((#[trigger] p.field_tracking@[i])@)
}
pub open spec fn c_consts(p: CProducer) -> Seq<u8> { if p.prime_str@ != "goldilocks"@ { consts_bytes(p.field_tracking@, num_val(p.prime@), (4 * p.size_32_bit) as nat, p.field_tracking@.len() as int) } else { Seq::empty() } }
pub open spec fn c_fields(p: CProducer) -> Seq<u8> { if p.io_map@.dom().len() > 0 { words(c_buses(p.busid_field_info@, p.busid_field_info@.len() as int)) } else { Seq::empty() } }
pub open spec fn dat(p: CProducer, h: Seq<Slot>) -> Seq<u8> { table_bytes(h, h.len() as int) + words8(ints(p.witness_to_signal_list@), p.witness_to_signal_list@.len() as int) + c_consts(p) + words(c_io(p.io_map@)) + c_fields(p) }
%end
%fn generate_dat_file ret=r ops
%subst &mut dyn Write => &mut BufWriter<File>
%subst std::io::Result<()> => Result<(), VErr>
requires cok(*producer), old(dat_file).bytes().len() == 0, old(dat_file).pos() == 0
ensures r is Ok ==> exists|h: Seq<Slot>| h.len() == c_slots(producer.main_input_list@.len() as int) && hash_ok(h, producer.main_input_list@) && final(dat_file).bytes() == #[trigger] dat(*producer, h)
%at tail
proof { if r__ is Ok { assert(dat_file.bytes() =~= dat(*producer, map@)); } }
