// Tables embedded in the generated witness calculators, read back as their readers do, and whole
// calculators run under node on random programs.
use code_producers::c_elements::{c_code_generator, CProducer};
use code_producers::components::{FieldData, FieldMap, IODef, InputInfo, TemplateInstanceIOMap};
use code_producers::wasm_elements::{wasm_code_generator, WASMProducer};
use harness::e2e::{gen, Prog};
use harness::*;
use num_bigint::BigInt;
use std::collections::BTreeMap;
fn words32(p: &BigInt) -> usize { ((p.bits() + 63) / 64) * 2 }
fn fnv(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }
struct Tables { prime: BigInt, prime_name: String, inputs: Vec<(String, usize, usize)>, wit: Vec<usize>, io: Vec<(usize, Vec<IoRec>)>, buses: Vec<Vec<IoRec>>, consts: Vec<BigInt>, msgs: Vec<String>, strs: Vec<String>,
    templates: usize, signals: usize, tree: usize, n_in: usize }
#[derive(Clone, Debug)]
struct IoRec { offset: usize, dims: Vec<usize>, size: usize, bus: Option<usize> }
fn name(r: &mut Rng) -> String { let mut s: String = (0..1 + r.us(8)).map(|_| (b'a' + r.us(26) as u8) as char).collect(); if r.chance(1, 4) { s = format!("{}.{}", s, r.us(9)); } s }
fn recs(r: &mut Rng, buses: usize) -> Vec<IoRec> {
    (0..r.us(5)).map(|_| IoRec { offset: r.us(3000), dims: (0..[0, 0, 1, 2, 3][r.us(5)]).map(|_| 1 + r.us(70)).collect(), size: 1 + r.us(500), bus: if buses > 0 && r.chance(1, 3) { Some(r.us(buses)) } else { None } }).collect()
}
fn text(r: &mut Rng) -> String { let n = if r.chance(1, 4) { 225 + r.us(40) } else { r.us(30) }; (0..n).map(|_| *r.pick(&['a', 'Z', '0', ' ', ':', '_', '.', 'q'])).collect() }
fn tables(r: &mut Rng) -> Tables {
    let (name_, p) = PRIMES[r.us(PRIMES.len())];
    let prime = big(p);
    let mut inputs: Vec<(String, usize, usize)> = vec![];
    let n = [0, 1, 3, 40, 255, 256, 257, 300][r.us(8)];
    while inputs.len() < n { let s = format!("{}{}", name(r), inputs.len()); inputs.push((s, 1 + r.us(90000), r.us(2000))); }
    let nb = r.us(5);
    let templates = r.us(7);
    let mut io = vec![];
    for c in 0..templates { if r.chance(2, 3) { io.push((c, recs(r, nb))); } }
    let half = &prime / 2;
    let edge = |r: &mut Rng| { let e = *r.pick(&[2147483647i64, 2147483648, -2147483648, -2147483649, 0, 1, -1, 255, 256, 65535, 16777216, -256]); emod(&BigInt::from(e), &prime) };
    let consts = (0..r.us(8)).map(|_| match r.us(4) { 0 => edge(r), 1 => emod(&(&half + BigInt::from(r.us(3) as i64 - 1)), &prime), _ => r.elem(&prime) }).collect();
    Tables { prime, prime_name: name_.into(), n_in: r.us(30), inputs, wit: (0..r.us(40)).map(|_| if r.chance(1, 6) { r.us(1 << 31) } else { r.us(5000) }).collect(), io, buses: (0..nb).map(|_| recs(r, nb)).collect(), consts,
        msgs: (0..r.us(4)).map(|_| text(r)).collect(), strs: (0..r.us(4)).map(|_| text(r)).collect(), templates, signals: r.us(60), tree: r.us(60) }
}
impl Tables {
    fn info(&self) -> Vec<InputInfo> { self.inputs.iter().map(|x| InputInfo { name: x.0.clone(), dimensions: vec![], start: x.1, size: x.2, bus_id: None }).collect() }
    fn io_map(&self) -> TemplateInstanceIOMap { self.io.iter().map(|(c, v)| (*c, v.iter().enumerate().map(|(i, x)| IODef { code: i, offset: x.offset, lengths: x.dims.clone(), size: x.size, bus_id: x.bus }).collect())).collect() }
    fn fields(&self) -> FieldMap { self.buses.iter().map(|v| v.iter().enumerate().map(|(i, x)| FieldData { name: format!("f{}", i), offset: x.offset, dimensions: x.dims.clone(), size: x.size, bus_id: x.bus }).collect()).collect() }
    fn wasm(&self) -> WASMProducer {
        let mut w = WASMProducer::default();
        w.prime = self.prime.to_string(); w.prime_str = self.prime_name.clone(); w.size_32_bit = words32(&self.prime);
        w.number_of_main_inputs = self.n_in; w.main_input_list = self.info();
        w.signals_in_witness = self.wit.len(); w.witness_to_signal_list = self.wit.clone();
        w.total_number_of_signals = self.signals + 1; w.size_of_component_tree = self.tree;
        w.io_map = self.io_map(); w.template_instance_list = (0..self.templates).map(|i| format!("T{}", i)).collect();
        w.message_list = self.msgs.clone(); w.set_string_table(self.strs.clone());
        w.field_tracking = self.consts.iter().map(|x| x.to_string()).collect();
        w.num_of_bus_instances = self.buses.len(); w.busid_field_info = self.fields();
        w
    }
    fn c(&self) -> CProducer {
        let mut c = CProducer::default();
        c.prime = self.prime.to_string(); c.prime_str = self.prime_name.clone(); c.size_32_bit = words32(&self.prime);
        c.number_of_main_inputs = self.n_in; c.main_input_list = self.info();
        c.signals_in_witness = self.wit.len(); c.witness_to_signal_list = self.wit.clone();
        c.io_map = self.io_map(); c.field_tracking = self.consts.iter().map(|x| x.to_string()).collect();
        c.num_of_bus_instances = self.buses.len(); c.busid_field_info = self.fields();
        c
    }
}
fn le(b: &[u8]) -> usize { b.iter().rev().fold(0, |a, x| a * 256 + *x as usize) }
/// one constant of the program, given what the calculator's field library reads of it
fn constant(head: usize, tag: usize, body: &[u8], want: &BigInt, p: &BigInt, i: usize) -> Result<(), String> {
    let r = emod(&(BigInt::from(1) << (p.bits() + 63) / 64 * 64), p);
    let m = BigInt::from_bytes_le(num_bigint::Sign::Plus, body);
    ensure(m < *p && m == emod(&(want * &r), p), &format!("the Montgomery form of constant {} ({}) is another number", i, want))?;
    match tag {
        0x40000000 => ensure(emod(&BigInt::from(head as u32 as i32), p) == *want, &format!("the short form of constant {} ({}) is {}", i, want, head as u32 as i32)),
        0xC0000000 => Ok(()),
        t => Err(format!("constant {} ({}) has the unknown form {:#x}", i, want, t)),
    }
}
/// the reader of both calculators: linear probing from hash % size, an entry without position or another hash ends nothing but a match
fn lookup(slot: &dyn Fn(usize) -> (u64, usize, usize), n: usize, h: u64, stop_empty: bool) -> Option<(usize, usize)> {
    let mut i = (h % n as u64) as usize;
    for _ in 0..n { let s = slot(i); if s.0 == h { return Some((s.1, s.2)); } if stop_empty && s.0 == 0 { return None; } i = (i + 1) % n; }
    None
}
struct Mem { bytes: Vec<u8>, set: Vec<bool> }
fn image(lines: &[String], size: usize) -> Result<Mem, String> {
    let mut m = Mem { bytes: vec![0; size], set: vec![false; size] };
    for l in lines {
        if l.starts_with(";;") { continue; }
        let x = l.strip_prefix("(data (i32.const ").and_then(|x| x.strip_suffix("\")")).ok_or(format!("unknown data line {:.60}", l))?;
        let (at, data) = x.split_once(") \"").ok_or(format!("unknown data line {:.60}", l))?;
        let mut i: usize = at.parse().map_err(|_| format!("unknown address {}", at))?;
        let d = data.as_bytes();
        let mut k = 0;
        while k < d.len() {
            let b = if d[k] == b'\\' { let v = u8::from_str_radix(data.get(k + 1..k + 3).ok_or("a cut escape")?, 16).map_err(|_| "an escape that is no byte")?; k += 3; v } else { k += 1; d[k - 1] };
            ensure(i < size, &format!("data at address {} beyond the memory of {} bytes before the stack", i, size))?;
            ensure(!m.set[i], &format!("two data segments overlap at address {}", i))?;
            m.bytes[i] = b; m.set[i] = true; i += 1;
        }
    }
    Ok(m)
}
fn wasm_part(t: &Tables) -> Result<(), String> {
    let w = t.wasm();
    let m = image(&wasm_code_generator::generate_data_list(&w), w.get_var_stack_memory_start())?;
    let get = |a: usize, n: usize| -> Result<usize, String> { m.bytes.get(a..a + n).map(le).ok_or(format!("address {} is out of the tables", a)) };
    let slice = |a: usize, n: usize| -> Result<Vec<u8>, String> { m.bytes.get(a..a + n).map(|x| x.to_vec()).ok_or(format!("address {} is out of the tables", a)) };
    ensure(get(0, 4)? == w.get_var_stack_memory_start(), "the stack does not start where it should")?;
    // cells the running calculator writes or that hold data must not overlap
    let nb = t.buses.len();
    let sz = w.get_size_32_bit();
    let n = w.get_input_hash_map_entry_size();
    let rec_bytes = |v: &[IoRec]| v.iter().map(|x| 4 + if x.dims.is_empty() { 0 } else { 4 * x.dims.len() } + if x.bus.is_some() { 4 } else { 0 }).sum::<usize>();
    let ml = w.get_size_of_message_in_bytes();
    let mut reg = vec![(0, 4, "stack pointer"), (w.get_raw_prime_start(), 4 * sz, "prime"), (w.get_shared_rw_memory_start(), 4 * sz, "shared memory"), (w.get_input_signals_hashmap_start(), 16 * n, "input table"), (w.get_remaining_input_signal_counter(), 4, "counter of inputs"),
        (w.get_input_signal_set_map_start(), 4 * t.n_in, "inputs set"), (w.get_witness_signal_id_list_start(), 4 * t.wit.len(), "witness list"), (w.get_signal_free_pos(), 4, "free signal"), (w.get_signal_memory_start(), (t.signals + 1) * 4 * (sz + 2), "signals"),
        (w.get_component_free_pos(), 4, "free component"), (w.get_component_tree_start(), 4 * t.tree, "components"), (w.get_template_instance_to_io_signal_start(), 4 * t.templates, "templates"), (w.get_io_signals_to_info_start(), 4 * t.io.iter().map(|x| x.1.len()).sum::<usize>(), "io signals"),
        (w.get_io_signals_info_start(), t.io.iter().map(|x| rec_bytes(&x.1)).sum(), "io records"), (w.get_bus_instance_to_field_start(), 4 * nb, "buses"), (w.get_field_to_info_start(), 4 * t.buses.iter().map(|x| x.len()).sum::<usize>(), "fields"), (w.get_field_info_start(), t.buses.iter().map(|x| rec_bytes(x)).sum(), "field records"),
        (w.get_message_buffer_counter_position(), 4, "message counter"), (w.get_message_buffer_start(), w.get_size_of_message_buffer_in_bytes(), "message buffer"), (w.get_message_list_start(), ml * t.msgs.len(), "messages"), (w.get_string_list_start(), ml * t.strs.len(), "strings"), (w.get_constant_numbers_start(), 4 * (sz + 2) * t.consts.len(), "constants")];
    reg.retain(|x| x.1 > 0);
    reg.sort();
    for x in reg.windows(2) { ensure(x[0].0 + x[0].1 <= x[1].0, &format!("the {} and the {} overlap in memory", x[0].2, x[1].2))?; }
    let last = reg.last().unwrap();
    ensure(last.0 + last.1 <= w.get_var_stack_memory_start(), &format!("the {} run into the stack", last.2))?;
    ensure(65536 * wasm_code_generator::get_initial_size_of_memory(&w) >= w.get_var_stack_memory_start() + 65536, "the memory has no room for a stack")?;
    ensure(BigInt::from_bytes_le(num_bigint::Sign::Plus, &slice(w.get_raw_prime_start(), 4 * sz)?) == t.prime, "another prime is embedded")?;
    ensure(n >= t.inputs.len().max(1), "the input table is too small")?;
    let at = w.get_input_signals_hashmap_start();
    for (s, p, z) in &t.inputs {
        let slot = |i: usize| (le(&m.bytes[at + 16 * i..at + 16 * i + 8]) as u64, le(&m.bytes[at + 16 * i + 8..at + 16 * i + 12]), le(&m.bytes[at + 16 * i + 12..at + 16 * i + 16]));
        ensure(lookup(&slot, n, fnv(s), true) == Some((*p, *z)), &format!("input {} is not found at signal {} with size {} of {} inputs", s, p, z, t.inputs.len()))?;
    }
    for (i, x) in t.wit.iter().enumerate() { ensure(get(w.get_witness_signal_id_list_start() + 4 * i, 4)? == *x, &format!("witness {} is not signal {}", i, x))?; }
    let one = slice(w.get_signal_memory_start(), 8 + 4 * sz)?;
    ensure(le(&one[..4]) == 0 && le(&one[4..8]) == 0x80000000 && BigInt::from_bytes_le(num_bigint::Sign::Plus, &one[8..]) == BigInt::from(1), "signal 0 is not one")?;
    let rec = |a: usize, x: &IoRec, what: &str| -> Result<(), String> {
        let mut want = vec![x.offset * 4 * (sz + 2)];
        if !x.dims.is_empty() { want.extend(&x.dims[1..]); want.push(x.size); }
        if let Some(b) = x.bus { want.push(b); }
        for (i, v) in want.iter().enumerate() { let g = get(a + 4 * i, 4)?; ensure(g == *v, &format!("word {} of the record of {} is {} instead of {} ({:?})", i, what, g, v, x))?; }
        Ok(())
    };
    for (c, v) in &t.io { if !v.is_empty() { let a = get(w.get_template_instance_to_io_signal_start() + 4 * c, 4)?; for (i, x) in v.iter().enumerate() { rec(get(a + 4 * i, 4)?, x, &format!("signal {} of template {}", i, c))?; } } }
    for (c, v) in t.buses.iter().enumerate() { if !v.is_empty() { let a = get(w.get_bus_instance_to_field_start() + 4 * c, 4)?; for (i, x) in v.iter().enumerate() { rec(get(a + 4 * i, 4)?, x, &format!("field {} of bus {}", i, c))?; } } }
    for (k, (a, v)) in [(w.get_message_list_start(), &t.msgs), (w.get_string_list_start(), &t.strs)].iter().enumerate() {
        for (i, s) in v.iter().enumerate() { let g = slice(a + ml * i, ml)?; let e = g.iter().position(|x| *x == 0).ok_or("a text without end")?; let want = &s.as_bytes()[..s.len().min(ml - 1)]; ensure(&g[..e] == want, &format!("{} {} is not the text given", ["message", "string"][k], i))?; }
    }
    for (i, x) in t.consts.iter().enumerate() { let a = w.get_constant_numbers_start() + 4 * (sz + 2) * i; constant(get(a, 4)?, get(a + 4, 4)?, &slice(a + 8, 4 * sz)?, x, &t.prime, i)?; }
    Ok(())
}
fn c_part(t: &Tables) -> Result<(), String> {
    let c = t.c();
    let mut d: Vec<u8> = vec![];
    c_code_generator::generate_dat_file(&mut d, &c).map_err(|e| e.to_string())?;
    let n = c.get_input_hash_map_entry_size();
    ensure(n >= t.inputs.len().max(1), "the input table is too small")?;
    let mut i = 0;
    let mut take = |k: usize| -> Result<Vec<u8>, String> { let s = d.get(i..i + k).ok_or("the .dat file ends early")?.to_vec(); i += k; Ok(s) };
    let h = take(24 * n)?;
    let slot = |i: usize| (le(&h[24 * i..24 * i + 8]) as u64, le(&h[24 * i + 8..24 * i + 16]), le(&h[24 * i + 16..24 * i + 24]));
    for (s, p, z) in &t.inputs { ensure(lookup(&slot, n, fnv(s), true) == Some((*p, *z)), &format!("input {} is not found at signal {} with size {} of {} inputs", s, p, z, t.inputs.len()))?; }
    for (i, x) in t.wit.iter().enumerate() { ensure(le(&take(8)?) == *x, &format!("witness {} is not signal {}", i, x))?; }
    if t.prime_name != "goldilocks" {
        for (i, x) in t.consts.iter().enumerate() { let (a, b) = (le(&take(4)?), le(&take(4)?)); constant(a, b, &take(4 * words32(&t.prime))?, x, &t.prime, i)?; }
    }
    let mut four = || -> Result<usize, String> { Ok(le(&take(4)?)) };
    for (c, _) in &t.io { ensure(four()? == *c, "another template in the table of signals")?; }
    let mut list = |v: &Vec<IoRec>, what: &str| -> Result<(), String> {
        ensure(four()? == v.len(), &format!("another number of records of {}", what))?;
        for (j, x) in v.iter().enumerate() {
            let mut want = vec![x.offset, x.dims.len().max(1) - 1];
            if !x.dims.is_empty() { want.extend(&x.dims[1..]); }
            want.push(x.size); want.push(x.bus.unwrap_or(0));
            for w in want { let g = four()?; ensure(g == w, &format!("record {} of {} has {} instead of {} ({:?})", j, what, g, w, x))?; }
        }
        Ok(())
    };
    for (c, v) in &t.io { list(v, &format!("template {}", c))?; }
    if !t.io.is_empty() { for (c, v) in t.buses.iter().enumerate() { list(v, &format!("bus {}", c))?; } }
    ensure(i == d.len(), "the .dat file is longer than its tables")
}
fn sizes(n: usize) -> Result<bool, String> {
    let mut w = WASMProducer::default();
    let mut c = CProducer::default();
    w.main_input_list = vec![InputInfo { name: "a".into(), dimensions: vec![], start: 1, size: 1, bus_id: None }; n];
    c.main_input_list = w.main_input_list.clone();
    ensure(w.get_input_hash_map_entry_size() >= n && c.get_input_hash_map_entry_size() >= n, &format!("the table of {} inputs is too small", n))?;
    ensure(w.get_input_hash_map_entry_size().is_power_of_two(), "the readers mask positions with the size of the table, which is no power of two")?;
    Ok(true)
}
/// nested JSON of inputs from their cells
enum J { Leaf(String), Obj(BTreeMap<String, J>), Arr(BTreeMap<usize, J>) }
fn put(j: &mut Option<J>, path: &[String], v: &str) {
    match path.first() {
        None => *j = Some(J::Leaf(v.into())),
        Some(s) => match s.parse::<usize>() {
            Ok(i) => { if let J::Arr(a) = j.get_or_insert(J::Arr(BTreeMap::new())) { let mut o = a.remove(&i); put(&mut o, &path[1..], v); a.insert(i, o.unwrap()); } }
            Err(_) => { if let J::Obj(a) = j.get_or_insert(J::Obj(BTreeMap::new())) { let mut o = a.remove(s); put(&mut o, &path[1..], v); a.insert(s.clone(), o.unwrap()); } }
        },
    }
}
fn show(j: &J) -> String {
    match j {
        J::Leaf(s) => format!("\"{}\"", s),
        J::Obj(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("\"{}\":{}", k, show(v))).collect::<Vec<_>>().join(",")),
        J::Arr(m) => format!("[{}]", m.values().map(show).collect::<Vec<_>>().join(",")),
    }
}
const RUN: &str = "const fs=require('fs');const b=require(process.argv[2]+'/witness_calculator.js');const inp=JSON.parse(fs.readFileSync(process.argv[4]));b(fs.readFileSync(process.argv[3])).then(async c=>{const w=await c.calculateWitness(inp,true);fs.writeFileSync(process.argv[5],w.map(x=>x.toString()).join('\\n'));}).catch(e=>{fs.writeFileSync(process.argv[5],'ERROR '+e);});";
fn calculator(g: &Prog, mode: usize, wat_flag: bool, dir: &str, seed: u64) -> Result<bool, String> {
    let p = g.p();
    let f = format!("{}/c17.circom", dir);
    std::fs::write(&f, g.text()).map_err(|e| e.to_string())?;
    let (mut archive, _) = parser::run_parser(f, "2.2.3", vec![], &p, false).map_err(|_| "did not parse".to_string())?;
    type_analysis::check_types::check_types(&mut archive).map_err(|_| "did not type check".to_string())?;
    let cfg = constraint_generation::BuildConfig {
        no_rounds: if mode == 2 { usize::MAX } else { 0 }, flag_json_sub: false, json_substitutions: format!("{}/c17_sub.json", dir), flag_s: mode == 1, flag_f: mode == 0, flag_p: false,
        flag_verbose: false, flag_old_heuristics: false, inspect_constraints: false, prime: PRIMES[g.prime].0.to_string(),
    };
    let (_, vcp) = constraint_generation::build_circuit(archive, cfg).map_err(|_| "did not build".to_string())?;
    let list = vcp.get_witness_list().clone();
    let cc = compiler::compiler_interface::Config { debug_output: false, produce_input_log: true, wat_flag, sanity_check_style: 2, no_asm_flag: false };
    let circuit = compiler::compiler_interface::run_compiler(vcp, cc, "2.2.3").map_err(|_| "did not compile".to_string())?;
    let (js, wat, wasm, inp, out, run) = (format!("{}/c17_js", dir), format!("{}/c17.wat", dir), format!("{}/c17.wasm", dir), format!("{}/c17.json", dir), format!("{}/c17.out", dir), format!("{}/c17_run.js", dir));
    compiler::compiler_interface::write_wasm(&circuit, &js, "c17", &wat).map_err(|_| "no calculator written".to_string())?;
    let text = std::fs::read_to_string(&wat).map_err(|e| e.to_string())?;
    let buf = wast::parser::ParseBuffer::new(&text).map_err(|e| format!("the WAT does not lex: {}", e))?;
    let mut m = wast::parser::parse::<wast::Wat>(&buf).map_err(|e| format!("the WAT does not parse: {}", e))?;
    std::fs::write(&wasm, m.module.encode().map_err(|e| format!("the WAT does not encode: {}", e))?).map_err(|e| e.to_string())?;
    let mut rng = Rng::new(seed);
    let mut vals: Vec<BigInt> = vec![];
    let w = g.witness(&mut || { let v = rng.elem(&p); vals.push(v.clone()); v });
    let top = g.tm.len() - 1;
    let mut j = Some(J::Obj(BTreeMap::new()));
    for n in g.kind_cells(top, 0) {
        let path: Vec<String> = n.replace(']', "").replace('[', ".").split('.').map(|x| x.to_string()).collect();
        put(&mut j, &path, &w[&format!("main.{}", n)].to_string());
    }
    std::fs::write(&inp, show(&j.unwrap())).map_err(|e| e.to_string())?;
    std::fs::write(&run, RUN).map_err(|e| e.to_string())?;
    let _ = std::fs::remove_file(&out);
    let s = std::process::Command::new("node").args([&run, &js, &wasm, &inp, &out]).output().map_err(|e| e.to_string())?;
    let got = std::fs::read_to_string(&out).map_err(|_| format!("the calculator did not run: {:.300}", String::from_utf8_lossy(&s.stderr)))?;
    ensure(!got.starts_with("ERROR"), &format!("the calculator rejects the honest inputs: {:.300}", got))?;
    let got: Vec<&str> = got.lines().collect();
    let mut names = vec![String::new()];
    names.extend(g.layout().into_iter().map(|x| x.0));
    ensure(got.len() == list.len(), &format!("{} values instead of {}", got.len(), list.len()))?;
    for (i, s) in list.iter().enumerate() { let n = names.get(*s).ok_or("a witness entry that is no signal")?; let v = w.get(n).ok_or_else(|| format!("no value of {}", n))?; ensure(got[i] == v.to_string(), &format!("signal {} is {} instead of {}", n, got[i], v))?; }
    Ok(list.len() > 3)
}
fn main() {
    let mut h = Harness::new("random tables with at least two inputs, constants or records; random programs with more than three witness entries");
    let dir = h.scratch.clone();
    for n in (0..70).chain([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32769, 65535, 65536, 65537, 100000, 2097153]) { h.case("entries", format!("{} inputs", n), move || sizes(n)); }
    let node = std::process::Command::new("node").arg("--version").output().map_or(false, |o| o.status.success());
    let mut k = 0usize;
    while h.time_left() {
        for _ in 0..150 {
            if !h.time_left() { break; }
            let seed = h.rng.us(1 << 30) as u64;
            h.case("wasm tables", format!("tables of seed {}", seed), move || { let t = tables(&mut Rng::new(seed)); wasm_part(&t)?; Ok(t.inputs.len() > 1 || t.consts.len() > 1 || t.io.len() > 1) });
            h.case("dat file", format!("tables of seed {}", seed), move || { let t = tables(&mut Rng::new(seed)); c_part(&t)?; Ok(t.inputs.len() > 1 || t.consts.len() > 1 || t.io.len() > 1) });
        }
        if !node || !h.time_left() { continue; }
        let g = gen(&mut h.rng);
        if g.prime > 6 { continue; }
        let (mode, wf, seed) = (h.rng.us(3), h.rng.chance(1, 2), h.rng.us(1 << 30) as u64);
        let d = dir.clone();
        h.case("calculator", format!("--O{}\n{}", mode, g.text()), move || calculator(&g, mode, wf, &d, seed));
        k += 1;
    }
    let _ = k;
    h.finish();
}
