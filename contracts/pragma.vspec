%use ops.rs
%use iter.rs
%use maps.rs
%use result.rs
%path String::new=VString::new
%path std::fs::canonicalize=vcanonicalize
%path Path::new=vpath
%path parser_logic::parse_file=vparse_file
%rename_method to_string=vto_string
%mod root
%verbatim
#[verifier::external_body]
pub struct VString { x: u8 }
impl View for VString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VString {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: VString) ensures r == *self { unimplemented!() }
}
pub trait VToString { fn vto_string(&self) -> VString; }
impl VToString for str {
    #[verifier::external_body]
    fn vto_string(&self) -> (r: VString) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vformat() -> (r: VString) { unimplemented!() }
// ---- the file system, assumed not to change while compiling; paths are valid Unicode
#[verifier::external_body]
pub struct PathBuf { x: u8 }
#[verifier::external_body]
pub struct IoError { x: u8 }
pub uninterp spec fn canon(p: PathBuf) -> Option<PathBuf>;
pub uninterp spec fn file_at(p: PathBuf) -> bool;
pub uninterp spec fn readable(p: PathBuf) -> bool;
pub uninterp spec fn contents(p: PathBuf) -> VString;
pub uninterp spec fn absolute(p: PathBuf) -> bool;
pub uninterp spec fn join(a: PathBuf, b: PathBuf) -> PathBuf;
pub uninterp spec fn parent(a: PathBuf) -> PathBuf;
pub uninterp spec fn empty_path() -> PathBuf;
pub uninterp spec fn path_of(s: VString) -> PathBuf;
pub uninterp spec fn str_of(p: PathBuf) -> VString;
pub broadcast proof fn axiom_join_empty(p: PathBuf) ensures #[trigger] join(empty_path(), p) == p { admit(); }
pub broadcast proof fn axiom_join_abs(a: PathBuf, p: PathBuf) ensures absolute(p) ==> #[trigger] join(a, p) == p { admit(); }
pub broadcast proof fn axiom_canon(p: PathBuf) ensures #![trigger canon(p)] canon(p) is Some ==> absolute(canon(p)->0) && canon(canon(p)->0) == canon(p) { admit(); }
pub broadcast proof fn axiom_str(p: PathBuf) ensures #[trigger] path_of(str_of(p)) == p { admit(); }
pub trait AsPath: Sized { spec fn as_path(self) -> PathBuf; }
impl AsPath for PathBuf { open spec fn as_path(self) -> PathBuf { self } }
impl<'a> AsPath for &'a PathBuf { open spec fn as_path(self) -> PathBuf { *self } }
impl AsPath for VString { open spec fn as_path(self) -> PathBuf { path_of(self) } }
#[verifier::external_body]
pub struct VPathStr { x: u8 }
impl VPathStr {
    pub uninterp spec fn path(&self) -> PathBuf;
    #[verifier::external_body]
    pub fn vto_string(&self) -> (r: VString) ensures r == str_of(self.path()) { unimplemented!() }
}
impl Clone for PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn new() -> (r: PathBuf) ensures r == empty_path() { unimplemented!() }
    #[verifier::external_body]
    pub fn push<P: AsPath>(&mut self, p: P) ensures *final(self) == join(*old(self), p.as_path()) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (b: bool) ensures *final(self) == parent(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> (b: bool) ensures b == file_at(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<VPathStr>) ensures r is Some, r->0.path() == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn from(s: VString) -> (r: PathBuf) ensures r == path_of(s) { unimplemented!() }
}
#[verifier::external_body]
pub fn vpath(s: &str) -> (r: PathBuf) ensures s@.len() == 0 ==> r == empty_path() { unimplemented!() }
#[verifier::external_body]
pub fn vcanonicalize<P: AsPath>(p: P) -> (r: Result<PathBuf, IoError>)
    ensures canon(p.as_path()) is Some ==> r is Ok && r->Ok_0 == canon(p.as_path())->0,
        canon(p.as_path()) is None ==> r is Err { unimplemented!() }
impl PathBuf {
    pub open spec fn canon_or_self(self) -> PathBuf { match canon(self) { Some(q) => q, None => self } }
}

%end
%mod parser
%ops off
%verbatim
pub type String = VString;
pub type FileID = usize;
pub type FileLocation = std::ops::Range<usize>;
#[verifier::external_body]
pub struct Expression { x: u8 }
#[verifier::external_body]
pub struct Statement { x: u8 }
#[verifier::external_body]
pub struct BigInt { x: u8 }
pub struct Meta { pub start: usize, pub end: usize }
pub type MainComponent = (Vec<String>, Expression);
pub struct Report { pub code: ReportCode, pub is_error: bool }
pub type ReportCollection = Vec<Report>;
impl Report {
    #[verifier::external_body]
    pub fn error(m: VString, c: ReportCode) -> (r: Report) ensures r.code == c, r.is_error { unimplemented!() }
    #[verifier::external_body]
    pub fn warning(m: VString, c: ReportCode) -> (r: Report) ensures r.code == c, !r.is_error { unimplemented!() }
    #[verifier::external_body]
    pub fn add_note(&mut self, m: VString) ensures final(self).code == old(self).code, final(self).is_error == old(self).is_error { unimplemented!() }
}
#[verifier::external_body]
pub fn produce_report(c: ReportCode, l: FileLocation, f: FileID) -> (r: Report) ensures r.code == c { unimplemented!() }
#[verifier::external_body]
pub fn produce_report_with_main_components(m: Vec<(usize, (Vec<String>, Expression), bool)>) -> (r: Report) ensures r.code is MultipleMain { unimplemented!() }

// ---- versions
pub open spec fn lex_le(a: (int, int), b: (int, int)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 <= b.1) }
pub open spec fn accepted(v: Version, compiler: Version) -> bool {
    v.0 == compiler.0 && lex_le((v.1 as int, v.2 as int), (compiler.1 as int, compiler.2 as int))
}
pub open spec fn at_least(v: Version, w: (int, int, int)) -> bool {
    v.0 > w.0 || (v.0 == w.0 && lex_le((w.1, w.2), (v.1 as int, v.2 as int)))
}
pub open spec fn custom_ok(v: Option<Version>, compiler: Version) -> bool {
    at_least(match v { Some(x) => x, None => compiler }, (2, 0, 6))
}
// first version pragma of a file
pub open spec fn first_version(p: Seq<Pragma>) -> Option<Version> decreases p.len() {
    if p.len() == 0 { None } else {
        match first_version(p.drop_last()) {
            Some(v) => Some(v),
            None => match p.last() { Pragma::Version(_, _, v) => Some(v), _ => None },
        }
    }
}
pub open spec fn n_versions(p: Seq<Pragma>) -> int decreases p.len() {
    if p.len() == 0 { 0 } else { n_versions(p.drop_last()) + if p.last() is Version { 1int } else { 0int } }
}
pub open spec fn n_customs(p: Seq<Pragma>) -> int decreases p.len() {
    if p.len() == 0 { 0 } else { n_customs(p.drop_last()) + if p.last() is CustomGates { 1int } else { 0int } }
}
pub open spec fn is_custom(d: Definition) -> bool { match d { Definition::Template { is_custom_gate, .. } => is_custom_gate, _ => false } }
pub open spec fn max0(x: int) -> int { if x < 0 { 0 } else { x } }

broadcast use {axiom_join_empty, axiom_join_abs, axiom_canon, axiom_str};
#[verifier::external_body]
pub fn open_file(path: PathBuf) -> (r: Result<(String, String), Report>)
    ensures r is Ok == readable(path), r is Ok ==> r->Ok_0.1 == contents(path) { unimplemented!() }
// ---- the include graph: edge i -> j says file j includes file i
impl IncludesGraph {
    #[verifier::opaque]
    pub open spec fn edge(&self, i: int, j: int) -> bool {
        0 <= i < self.nodes@.len() && self.adjacency@.contains_key(self.nodes@[i].path)
            && exists|k: int| 0 <= k < self.adjacency@[self.nodes@[i].path]@.len() && #[trigger] self.adjacency@[self.nodes@[i].path]@[k] == j
    }
    pub open spec fn wf(&self) -> bool {
        &&& forall|p: PathBuf, k: int| #![trigger self.adjacency@[p]@[k]] self.adjacency@.contains_key(p) && 0 <= k < self.adjacency@[p]@.len() ==> self.adjacency@[p]@[k] < self.nodes@.len()
        &&& forall|k: int| 0 <= k < self.custom_gates_nodes@.len() ==> #[trigger] self.custom_gates_nodes@[k] < self.nodes@.len()
    }
    #[verifier::opaque]
    pub open spec fn walk(&self, w: Seq<usize>, t: Set<(usize, usize)>) -> bool {
        &&& w.len() > 0
        &&& forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] < self.nodes@.len()
        &&& forall|i: int| 0 <= i < w.len() - 1 ==> #[trigger] self.step(w, t, i)
    }
    pub open spec fn step(&self, w: Seq<usize>, t: Set<(usize, usize)>, i: int) -> bool {
        self.edge(w[i] as int, w[i + 1] as int) && !t.contains((w[i], w[i + 1]))
    }
    #[verifier::opaque]
    // some file without the pragma is reached from `from` by a chain of includes
    pub open spec fn bad_from(&self, from: int, t: Set<(usize, usize)>) -> bool {
        exists|w: Seq<usize>| #[trigger] self.walk(w, t) && w[0] == from && !self.nodes@[w.last() as int].custom_gates_pragma
    }
    #[verifier::opaque]
    pub open spec fn bad(&self) -> bool {
        exists|k: int| 0 <= k < self.custom_gates_nodes@.len() && self.bad_from(#[trigger] self.custom_gates_nodes@[k] as int, Set::empty())
    }
}
pub open spec fn row(n: nat, i: nat) -> Set<(usize, usize)> decreases n {
    if n == 0 { Set::empty() } else { row((n - 1) as nat, i).insert((i as usize, (n - 1) as usize)) }
}
pub open spec fn grid(n: nat, m: nat) -> Set<(usize, usize)> decreases m {
    if m == 0 { Set::empty() } else { grid(n, (m - 1) as nat).union(row(n, (m - 1) as nat)) }
}
pub proof fn lemma_row(n: nat, i: nat, a: usize, b: usize)
    requires n <= usize::MAX, i <= usize::MAX
    ensures row(n, i).contains((a, b)) == (a == i && b < n) decreases n
{ if n > 0 { lemma_row((n - 1) as nat, i, a, b); } }
pub proof fn lemma_grid(n: nat, m: nat, a: usize, b: usize)
    requires n <= usize::MAX, m <= usize::MAX
    ensures grid(n, m).contains((a, b)) == (a < m && b < n) decreases m
{ if m > 0 { lemma_grid(n, (m - 1) as nat, a, b); lemma_row(n, (m - 1) as nat, a, b); } }
pub proof fn lemma_grid_insert(n: nat, t: Set<(usize, usize)>, e: (usize, usize))
    requires n <= usize::MAX, t.subset_of(grid(n, n)), !t.contains(e), e.0 < n, e.1 < n
    ensures t.insert(e).subset_of(grid(n, n)), t.insert(e).len() == t.len() + 1, t.len() + 1 <= grid(n, n).len()
{
    lemma_grid(n, n, e.0, e.1);
    assert(t.insert(e).subset_of(grid(n, n)));
    vstd::set_lib::lemma_len_subset(t.insert(e), grid(n, n));
}
// index of the last use of the first edge
pub open spec fn last_use(w: Seq<usize>, e: (usize, usize), i: int) -> int decreases i {
    if i <= 0 { 0 } else if (w[i], w[i + 1]) == e { i } else { last_use(w, e, i - 1) }
}
pub proof fn lemma_last_use(w: Seq<usize>, e: (usize, usize), i: int)
    requires 0 <= i < w.len() - 1, e == (w[0], w[1])
    ensures 0 <= last_use(w, e, i) <= i, (w[last_use(w, e, i)], w[last_use(w, e, i) + 1]) == e,
        forall|j: int| last_use(w, e, i) < j <= i ==> (#[trigger] w[j], w[j + 1]) != e
    decreases i
{ if i > 0 { if (w[i], w[i + 1]) != e { lemma_last_use(w, e, i - 1); } } }
pub proof fn lemma_walk_shorten(g: &IncludesGraph, w: Seq<usize>, t: Set<(usize, usize)>)
    requires g.walk(w, t), w.len() > 1, !g.nodes@[w.last() as int].custom_gates_pragma
    ensures g.bad_from(w[1] as int, t.insert((w[0], w[1]))), g.edge(w[0] as int, w[1] as int), !t.contains((w[0], w[1]))
{
    reveal(IncludesGraph::walk); reveal(IncludesGraph::bad_from);
    let e = (w[0], w[1]);
    assert(w[1] < g.nodes@.len());
    let i = last_use(w, e, w.len() - 2);
    lemma_last_use(w, e, w.len() - 2);
    let s = w.skip(i + 1);
    assert(s[0] == w[1]);
    assert(s.last() == w.last());
    let t2 = t.insert(e);
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] < g.nodes@.len() by { assert(w[i + 1 + k] < g.nodes@.len()); }
    assert(g.step(w, t, 0));
    assert forall|k: int| 0 <= k < s.len() - 1 implies #[trigger] g.step(s, t2, k) by {
        assert(g.step(w, t, i + 1 + k));
        assert((w[i + 1 + k], w[i + 1 + k + 1]) != e);
        assert(s[k] == w[i + 1 + k]);
        assert(s[k + 1] == w[i + 1 + k + 1]);
    }
    assert(g.walk(s, t2));
}
pub proof fn lemma_walk_extend(g: &IncludesGraph, from: usize, to: usize, t: Set<(usize, usize)>)
    requires from < g.nodes@.len(), g.edge(from as int, to as int), !t.contains((from, to)), g.bad_from(to as int, t.insert((from, to)))
    ensures g.bad_from(from as int, t)
{
    reveal(IncludesGraph::walk); reveal(IncludesGraph::bad_from);
    let t2 = t.insert((from, to));
    let w = choose|w: Seq<usize>| #[trigger] g.walk(w, t2) && w[0] == to && !g.nodes@[w.last() as int].custom_gates_pragma;
    let s = seq![from] + w;
    assert(s.last() == w.last());
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] < g.nodes@.len() by { if k > 0 { assert(s[k] == w[k - 1]); } }
    assert forall|k: int| 0 <= k < s.len() - 1 implies #[trigger] g.step(s, t, k) by {
        if k > 0 { assert(s[k] == w[k - 1]); assert(s[k + 1] == w[k]); assert(g.step(w, t2, k - 1)); } else { assert(s[1] == w[0]); }
    }
    assert(g.walk(s, t));
    assert(s[0] == from);
}
pub proof fn lemma_bad_here(g: &IncludesGraph, from: usize, t: Set<(usize, usize)>)
    requires from < g.nodes@.len()
    ensures !g.nodes@[from as int].custom_gates_pragma ==> g.bad_from(from as int, t)
{
    reveal(IncludesGraph::walk); reveal(IncludesGraph::bad_from);
    let w = seq![from];
    assert(g.walk(w, t)); assert(w[0] == from); assert(w.last() == from);
}
pub proof fn lemma_bad_cases(g: &IncludesGraph, from: usize, t: Set<(usize, usize)>)
    requires from < g.nodes@.len(), g.bad_from(from as int, t), g.nodes@[from as int].custom_gates_pragma
    ensures g.adjacency@.contains_key(g.nodes@[from as int].path),
        exists|k: int| 0 <= k < g.adjacency@[g.nodes@[from as int].path]@.len() && !t.contains((from, #[trigger] g.adjacency@[g.nodes@[from as int].path]@[k]))
            && g.bad_from(g.adjacency@[g.nodes@[from as int].path]@[k] as int, t.insert((from, g.adjacency@[g.nodes@[from as int].path]@[k])))
{
    reveal(IncludesGraph::walk); reveal(IncludesGraph::bad_from); reveal(IncludesGraph::edge);
    let w = choose|w: Seq<usize>| #[trigger] g.walk(w, t) && w[0] == from && !g.nodes@[w.last() as int].custom_gates_pragma;
    if w.len() > 1 { lemma_walk_shorten(g, w, t); assert(g.edge(from as int, w[1] as int)); } else { assert(w.last() == w[0]); }
}
%end
%source program_structure/src/program_library/error_code.rs
%item ReportCode
%source program_structure/src/abstract_syntax_tree/ast.rs
%item Version
%item Pragma
%item Definition
%item AST
%fn AST::new ret=r
%subst Vec::new() => Vec::<Report>::new()
ensures
    r.0.compiler_version == first_version(pragmas@),
    r.0.custom_gates == (n_customs(pragmas@) > 0),
    r.1@.len() == max0(n_versions(pragmas@) - 1) + max0(n_customs(pragmas@) - 1),
    forall|i: int| 0 <= i < r.1@.len() ==> (#[trigger] r.1@[i]).code is MultiplePragma,
    r.0.custom_gates_declared == (exists|i: int| 0 <= i < definitions@.len() && is_custom(#[trigger] definitions@[i])),
    r.0.includes == includes, r.0.definitions == definitions, r.0.main_component == main_component,
%loop 0
    compiler_version == first_version(it_0.items().take(it_0.pos())),
    compiler_version is Some == (n_versions(it_0.items().take(it_0.pos())) > 0),
    n_versions(it_0.items().take(it_0.pos())) >= 0, n_customs(it_0.items().take(it_0.pos())) >= 0,
    custom_gates == (if n_customs(it_0.items().take(it_0.pos())) > 0 { Some(true) } else { None }),
    reports@.len() == max0(n_versions(it_0.items().take(it_0.pos())) - 1) + max0(n_customs(it_0.items().take(it_0.pos())) - 1),
    forall|i: int| 0 <= i < reports@.len() ==> (#[trigger] reports@[i]).code is MultiplePragma,
%at loop_start 0
proof { assert(it_0.items().take(it_0.pos()).drop_last() =~= it_0.items().take(it_0.pos() - 1)); assert(it_0.items().take(it_0.pos()).last() == it_0.items()[it_0.pos() - 1]); }
%at after_loop 0
proof { assert(it_0.items().take(it_0.pos()) =~= pragmas@); }
%loop 1
    acc_1 == (exists|i: int| 0 <= i < it_1.pos() && is_custom(#[trigger] definitions@[i])),
%fn produce_version_warning_report ret=r
ensures r.code is NoCompilerVersionWarning, !r.is_error
%fn produce_compiler_version_report ret=r
ensures r.code is CompilerVersionError, r.is_error
%fn produce_report_with_message ret=r
requires error_code is FileOs || error_code is IncludeNotFound
ensures r.code == error_code, r.is_error
%source parser/src/include_logic.rs
%item FileStack
%item IncludesNode
%item IncludesGraph
%verbatim
impl IncludesGraph {
    // #[derive(Default)]
    pub fn default() -> (r: Self) ensures r.nodes@.len() == 0, r.adjacency@ == Map::<PathBuf, Vec<usize>>::empty(), r.custom_gates_nodes@.len() == 0
    { IncludesGraph { nodes: Vec::new(), adjacency: HashMap::new(), custom_gates_nodes: Vec::new() } }
}
// the first location that has the file
pub open spec fn locate(dirs: Seq<PathBuf>, name: PathBuf) -> Option<PathBuf> decreases dirs.len() {
    if dirs.len() == 0 { None } else {
        match canon(join(dirs[0], name)) {
            Some(p) => if file_at(p) { Some(p) } else { locate(dirs.drop_first(), name) },
            None => locate(dirs.drop_first(), name),
        }
    }
}
pub proof fn lemma_locate_skip(dirs: Seq<PathBuf>, name: PathBuf, k: int)
    requires 0 <= k <= dirs.len(), forall|i: int| 0 <= i < k ==> !(canon(#[trigger] join(dirs[i], name)) is Some && file_at(canon(join(dirs[i], name))->0))
    ensures locate(dirs, name) == locate(dirs.skip(k), name)
    decreases k
{
    if k > 0 {
        assert(dirs.drop_first().skip(k - 1) =~= dirs.skip(k));
        assert forall|i: int| 0 <= i < k - 1 implies !(canon(#[trigger] join(dirs.drop_first()[i], name)) is Some && file_at(canon(join(dirs.drop_first()[i], name))->0)) by {
            assert(dirs.drop_first()[i] == dirs[i + 1]);
        }
        assert(!(canon(join(dirs[0], name)) is Some && file_at(canon(join(dirs[0], name))->0)));
        lemma_locate_skip(dirs.drop_first(), name, k - 1);
    } else { assert(dirs.skip(0) =~= dirs); }
}
%end
%fn FileStack::new ret=r
ensures r.current_location == parent(src), r.black_paths@ == Set::<PathBuf>::empty(), r.stack@ == seq![src]
%fn FileStack::add_include ret=r
ensures
    final(f_stack).current_location == old(f_stack).current_location,
    final(f_stack).black_paths == old(f_stack).black_paths,
    match locate(seq![old(f_stack).current_location] + libraries@, path_of(name)) {
        Some(p) => r is Ok && r->Ok_0 == str_of(p) && canon(p) == Some(p)
            && final(f_stack).stack@ == (if old(f_stack).black_paths@.contains(p) { old(f_stack).stack@ } else { old(f_stack).stack@.push(p) }),
        None => r is Err && r->Err_0.code is IncludeNotFound && r->Err_0.is_error && final(f_stack).stack@ == old(f_stack).stack@,
    }
%subst Vec::new() => Vec::<PathBuf>::new()
%at pre_loop 0
let ghost dirs = libraries2@;
proof { assert(dirs =~= seq![f_stack.current_location] + libraries@); }
%loop 0
    f_stack.current_location == old(f_stack).current_location, f_stack.black_paths == old(f_stack).black_paths, f_stack.stack@ == old(f_stack).stack@,
    dirs == seq![old(f_stack).current_location] + libraries@, it_0.items() == dirs,
    forall|i: int| 0 <= i < it_0.pos() ==> !(canon(#[trigger] join(dirs[i], path_of(name))) is Some && file_at(canon(join(dirs[i], path_of(name)))->0)),
%at loop_start 0
proof { lemma_locate_skip(dirs, path_of(name), it_0.pos() - 1); assert(dirs.skip(it_0.pos() - 1)[0] == dirs[it_0.pos() - 1]); }
%at after_loop 0
proof { lemma_locate_skip(dirs, path_of(name), it_0.pos()); assert(dirs.skip(it_0.pos()).len() == 0); }
%fn FileStack::take_next ret=r
ensures
    match r {
        Some(f) => !old(f_stack).black_paths@.contains(f) && old(f_stack).stack@.contains(f)
            && final(f_stack).current_location == parent(f)
            && final(f_stack).black_paths@ =~= (match canon(f) { Some(c) => old(f_stack).black_paths@.insert(f).insert(c), None => old(f_stack).black_paths@.insert(f) })
            && (forall|p: PathBuf| #![trigger old(f_stack).stack@.contains(p)] #![trigger final(f_stack).stack@.contains(p)] old(f_stack).stack@.contains(p) ==> final(f_stack).stack@.contains(p) || final(f_stack).black_paths@.contains(p))
            && (forall|p: PathBuf| #[trigger] final(f_stack).stack@.contains(p) ==> old(f_stack).stack@.contains(p)),
        None => final(f_stack).black_paths == old(f_stack).black_paths && final(f_stack).stack@.len() == 0
            && forall|p: PathBuf| #[trigger] old(f_stack).stack@.contains(p) ==> old(f_stack).black_paths@.contains(p),
    }
%attr verifier::allow_complex_invariants
%loop 0
invariant
    f_stack.black_paths == old(f_stack).black_paths,
    forall|p: PathBuf| #![trigger old(f_stack).stack@.contains(p)] #![trigger f_stack.stack@.contains(p)] old(f_stack).stack@.contains(p) ==> f_stack.stack@.contains(p) || f_stack.black_paths@.contains(p),
    forall|p: PathBuf| #[trigger] f_stack.stack@.contains(p) ==> old(f_stack).stack@.contains(p),
decreases f_stack.stack@.len()
%at loop_start 0
let ghost st0 = f_stack.stack@;
proof { if st0.len() > 0 { assert(st0 =~= st0.drop_last().push(st0.last()));
    assert forall|p: PathBuf| #[trigger] st0.contains(p) implies st0.drop_last().contains(p) || p == st0.last() by {
        let i = choose|i: int| 0 <= i < st0.len() && st0[i] == p;
        if i < st0.len() - 1 { assert(st0.drop_last()[i] == p); } }
    assert(st0[st0.len() - 1] == st0.last()); assert(st0.contains(st0.last()));
    assert forall|p: PathBuf| #[trigger] st0.drop_last().contains(p) implies st0.contains(p) by {
        let i = choose|i: int| 0 <= i < st0.drop_last().len() && st0.drop_last()[i] == p; assert(st0[i] == p); }
  } }
%fn IncludesGraph::new ret=r
ensures r.nodes@.len() == 0, r.adjacency@ == Map::<PathBuf, Vec<usize>>::empty(), r.custom_gates_nodes@.len() == 0
%fn IncludesGraph::add_node
ensures
    final(self).nodes@.len() == old(self).nodes@.len() + 1,
    final(self).nodes@.drop_last() == old(self).nodes@,
    final(self).nodes@.last().path == path.canon_or_self(), final(self).nodes@.last().custom_gates_pragma == custom_gates_pragma,
    final(self).adjacency == old(self).adjacency,
    final(self).custom_gates_nodes@ == (if custom_gates_usage { old(self).custom_gates_nodes@.push(old(self).nodes@.len() as usize) } else { old(self).custom_gates_nodes@ }),
%at end
proof { assert(self.nodes@.drop_last() =~= old(self).nodes@); }
%fn IncludesGraph::add_edge ret=r
requires old(self).nodes@.len() > 0
ensures
    final(self).nodes == old(self).nodes, final(self).custom_gates_nodes == old(self).custom_gates_nodes,
    r is Ok == canon(path_of(old_path)) is Some,
    r is Err ==> r->Err_0.is_error,
    r is Ok ==> {
        let p = canon(path_of(old_path))->0;
        let old_edges = if old(self).adjacency@.contains_key(p) { old(self).adjacency@[p]@ } else { seq![] };
        &&& final(self).adjacency@.dom() == old(self).adjacency@.dom().insert(p)
        &&& final(self).adjacency@[p]@ == old_edges.push((old(self).nodes@.len() - 1) as usize)
        &&& forall|q: PathBuf| q != p && #[trigger] old(self).adjacency@.contains_key(q) ==> final(self).adjacency@[q] == old(self).adjacency@[q]
    },
%fn IncludesGraph::get_problematic_paths ret=r
%subst problematic_paths = Vec::new() => problematic_paths = Vec::<Vec<PathBuf>>::new()
requires self.wf()
ensures (r@.len() > 0) == self.bad()
%at start
proof { reveal(IncludesGraph::bad); assert(Set::<(usize, usize)>::empty().subset_of(grid(self.nodes@.len(), self.nodes@.len()))); }
%loop 0
    (problematic_paths@.len() > 0) == (exists|k: int| 0 <= k < it_0.pos() && self.bad_from(#[trigger] self.custom_gates_nodes@[k] as int, Set::empty())),
%fn IncludesGraph::traverse ret=r
%subst problematic_paths = Vec::new() => problematic_paths = Vec::<Vec<PathBuf>>::new()
requires self.wf(), from < self.nodes@.len(), traversed_edges@.subset_of(grid(self.nodes@.len(), self.nodes@.len()))
ensures (r@.len() > 0) == self.bad_from(from as int, traversed_edges@)
decreases grid(self.nodes@.len(), self.nodes@.len()).len() - traversed_edges@.len()
%at start
let ghost n = self.nodes@.len();
proof {
    vstd::set_lib::lemma_len_subset(traversed_edges@, grid(n, n));
    assert(self.nodes@.len() == self.nodes.len());
    lemma_bad_here(self, from, traversed_edges@);
}
%at loop_start 0
proof { reveal(IncludesGraph::edge); lemma_grid(n, n, from, *to); assert(self.adjacency@[*from_path]@[it_0.pos() - 1] == *to);
    if !traversed_edges@.contains((from, *to)) { lemma_grid_insert(n, traversed_edges@, (from, *to)); } }
%loop 0
    n == self.nodes@.len(), n <= usize::MAX, *from_path == self.nodes@[from as int].path, self.adjacency@.contains_key(*from_path),
    using_pragma == self.nodes@[from as int].custom_gates_pragma,
    *edges == self.adjacency@[*from_path],
    problematic_paths@.len() > 0 ==> self.bad_from(from as int, traversed_edges@),
    !using_pragma ==> problematic_paths@.len() > 0,
    forall|k: int| 0 <= k < it_0.pos() && !traversed_edges@.contains((from, #[trigger] edges@[k])) && self.bad_from(edges@[k] as int, traversed_edges@.insert((from, edges@[k]))) ==> problematic_paths@.len() > 0,
%at loop_end 0
proof {
    if !traversed_edges@.contains((from, *to)) && self.bad_from(*to as int, traversed_edges@.insert((from, *to))) { lemma_walk_extend(self, from, *to, traversed_edges@); }
}
%at tail
proof { if self.nodes@[from as int].custom_gates_pragma && self.bad_from(from as int, traversed_edges@) { lemma_bad_cases(self, from, traversed_edges@); } }
%source parser/src/lib.rs
%verbatim
#[verifier::external_body]
pub struct FileLibrary { x: u8 }
impl FileLibrary {
    #[verifier::external_body]
    pub fn new() -> (r: FileLibrary) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: FileLibrary) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn add_file(&mut self, name: String, src: String) -> (r: FileID) { unimplemented!() }
}
#[verifier::external_body]
pub struct ProgramArchive { x: u8 }
impl ProgramArchive {
    pub uninterp spec fn definitions(&self) -> Seq<(FileID, Vec<Definition>)>;
    #[verifier::external_body]
    pub fn new(f: FileLibrary, main: FileID, mc: MainComponent, d: Vec<(FileID, Vec<Definition>)>, custom_gates: bool) -> (r: Result<ProgramArchive, (FileLibrary, Vec<Report>)>)
        ensures r is Ok ==> r->Ok_0.definitions() == d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn get_file_library(&self) -> (r: &FileLibrary) { unimplemented!() }
}
#[verifier::external_body]
pub fn apply_syntactic_sugar(a: &mut ProgramArchive) -> (r: Result<(), Report>) ensures final(a).definitions() == old(a).definitions() { unimplemented!() }
// the grammar's result for a text (AST::new is what it calls to build it)
pub uninterp spec fn ast_of(src: VString, file: FileID, field: BigInt, flag: bool) -> AST;
#[verifier::external_body]
pub fn vparse_file(src: &String, f: FileID, field: &BigInt, flag: bool) -> (r: Result<AST, ReportCollection>)
    ensures r is Ok ==> r->Ok_0 == ast_of(*src, f, *field, flag) { unimplemented!() }
pub uninterp spec fn version_of(s: Seq<char>) -> Version;
#[verifier::external_body]
pub fn parse_number_version(version: &str) -> (r: Version) ensures r == version_of(version@) { unimplemented!() }

// one file of the program: as asked for, where it was found, what it says, what it includes
pub struct Visit { pub file: PathBuf, pub path: PathBuf, pub ast: AST, pub targets: Seq<PathBuf> }
pub open spec fn includes_path(v: Visit, p: PathBuf) -> bool { exists|k: int| 0 <= k < v.targets.len() && #[trigger] v.targets[k] == p }
impl Visit {
    pub open spec fn version_ok(self, c: Version) -> bool {
        &&& (self.ast.compiler_version is Some ==> accepted(self.ast.compiler_version->0, c))
        &&& (self.ast.custom_gates ==> custom_ok(self.ast.compiler_version, c))
    }
    pub open spec fn targets_ok(self, libs: Seq<PathBuf>) -> bool {
        &&& self.targets.len() <= self.ast.includes@.len()
        &&& forall|k: int| 0 <= k < self.targets.len() ==> locate(seq![parent(self.file)] + libs, path_of(self.ast.includes@[k])) == Some(#[trigger] self.targets[k])
    }
    pub open spec fn is(self, p: PathBuf) -> bool { self.file == p || canon(self.file) == Some(p) }
}
pub open spec fn missing(tr: Seq<Visit>) -> int decreases tr.len() {
    if tr.len() == 0 { 0 } else { missing(tr.drop_last()) + if tr.last().ast.compiler_version is None { 1int } else { 0int } }
}
pub open spec fn graph_of(g: &IncludesGraph, tr: Seq<Visit>) -> bool {
    &&& g.wf()
    &&& g.nodes@.len() == tr.len()
    &&& forall|i: int| 0 <= i < tr.len() ==> (#[trigger] g.nodes@[i]).path == tr[i].path.canon_or_self() && g.nodes@[i].custom_gates_pragma == tr[i].ast.custom_gates
    &&& forall|i: int| 0 <= i < tr.len() && (#[trigger] tr[i]).ast.custom_gates_declared ==> g.custom_gates_nodes@.contains(i as usize)
    &&& forall|i: int, p: PathBuf| 0 <= i < tr.len() && #[trigger] includes_path(tr[i], p) ==> g.adjacency@.contains_key(p) && g.adjacency@[p]@.contains(i as usize)
}
// a file that declares custom templates reaches, through the files that include it, one without the pragma
pub open spec fn chain(tr: Seq<Visit>, w: Seq<int>) -> bool {
    &&& w.len() > 0
    &&& forall|i: int| 0 <= i < w.len() ==> 0 <= #[trigger] w[i] < tr.len()
    &&& forall|i: int| 0 <= i < w.len() - 1 ==> #[trigger] included(tr, w, i)
    &&& tr[w[0]].ast.custom_gates_declared
    &&& !tr[w.last()].ast.custom_gates
}
pub open spec fn included(tr: Seq<Visit>, w: Seq<int>, i: int) -> bool { includes_path(tr[w[i + 1]], tr[w[i]].path.canon_or_self()) }
pub proof fn lemma_chain_bad(g: &IncludesGraph, tr: Seq<Visit>, w: Seq<int>)
    requires graph_of(g, tr), chain(tr, w)
    ensures g.bad()
{
    reveal(IncludesGraph::walk); reveal(IncludesGraph::bad_from); reveal(IncludesGraph::edge); reveal(IncludesGraph::bad);
    assert(g.nodes@.len() == g.nodes.len());
    let u = Seq::new(w.len(), |i: int| w[i] as usize);
    let t = Set::<(usize, usize)>::empty();
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] < g.nodes@.len() by { assert(0 <= w[i] < tr.len()); }
    assert forall|i: int| 0 <= i < u.len() - 1 implies #[trigger] g.step(u, t, i) by {
        assert(included(tr, w, i));
        assert(0 <= w[i] < tr.len()); assert(0 <= w[i + 1] < tr.len());
        let p = tr[w[i]].path.canon_or_self();
        assert(g.nodes@[w[i]].path == p);
        assert(includes_path(tr[w[i + 1]], p));
        let k = choose|k: int| 0 <= k < g.adjacency@[p]@.len() && g.adjacency@[p]@[k] == w[i + 1] as usize;
        assert(g.adjacency@[p]@[k] == u[i + 1]);
    }
    assert(g.walk(u, t));
    assert(0 <= w[0] < tr.len());
    assert(0 <= w.last() < tr.len());
    assert(g.nodes@[u.last() as int].custom_gates_pragma == tr[w.last()].ast.custom_gates);
    assert(g.custom_gates_nodes@.contains(w[0] as usize));
    let k = choose|k: int| 0 <= k < g.custom_gates_nodes@.len() && g.custom_gates_nodes@[k] == w[0] as usize;
    assert(g.bad_from(g.custom_gates_nodes@[k] as int, t));
}
pub proof fn lemma_graph_node(g0: &IncludesGraph, g: &IncludesGraph, tr: Seq<Visit>, v: Visit)
    requires graph_of(g0, tr), v.targets.len() == 0,
        g.nodes@.len() == g0.nodes@.len() + 1, g.nodes@.drop_last() == g0.nodes@,
        g.nodes@.last().path == v.path.canon_or_self(), g.nodes@.last().custom_gates_pragma == v.ast.custom_gates,
        g.adjacency == g0.adjacency,
        g.custom_gates_nodes@ == (if v.ast.custom_gates_declared { g0.custom_gates_nodes@.push(g0.nodes@.len() as usize) } else { g0.custom_gates_nodes@ }),
    ensures graph_of(g, tr.push(v))
{
    assert(g.nodes@.len() == g.nodes.len());
    let t2 = tr.push(v);
    assert forall|i: int| 0 <= i < t2.len() implies (#[trigger] g.nodes@[i]).path == t2[i].path.canon_or_self() && g.nodes@[i].custom_gates_pragma == t2[i].ast.custom_gates by {
        if i < tr.len() { assert(g.nodes@.drop_last()[i] == g.nodes@[i]); assert(g0.nodes@[i].path == tr[i].path.canon_or_self()); }
    }
    assert forall|i: int| 0 <= i < t2.len() && (#[trigger] t2[i]).ast.custom_gates_declared implies g.custom_gates_nodes@.contains(i as usize) by {
        if i < tr.len() {
            assert(tr[i].ast.custom_gates_declared);
            assert(g0.custom_gates_nodes@.contains(i as usize));
            let k = choose|k: int| 0 <= k < g0.custom_gates_nodes@.len() && g0.custom_gates_nodes@[k] == i as usize;
            assert(g.custom_gates_nodes@[k] == i as usize);
        } else { assert(g.custom_gates_nodes@[g0.custom_gates_nodes@.len() as int] == i as usize); }
    }
    assert forall|i: int, p: PathBuf| 0 <= i < t2.len() && #[trigger] includes_path(t2[i], p) implies g.adjacency@.contains_key(p) && g.adjacency@[p]@.contains(i as usize) by {
        if i < tr.len() { assert(includes_path(tr[i], p)); }
    }
}
pub proof fn lemma_graph_edge(g0: &IncludesGraph, g: &IncludesGraph, tr: Seq<Visit>, p: PathBuf)
    requires graph_of(g0, tr), tr.len() > 0,
        g.nodes == g0.nodes, g.custom_gates_nodes == g0.custom_gates_nodes,
        g.adjacency@.dom() == g0.adjacency@.dom().insert(p),
        g.adjacency@[p]@ == (if g0.adjacency@.contains_key(p) { g0.adjacency@[p]@ } else { seq![] }).push((g0.nodes@.len() - 1) as usize),
        forall|q: PathBuf| q != p && #[trigger] g0.adjacency@.contains_key(q) ==> g.adjacency@[q] == g0.adjacency@[q],
    ensures graph_of(g, with_target(tr, p))
{
    assert(g.nodes@.len() == g.nodes.len());
    let t2 = with_target(tr, p);
    assert forall|i: int, q: PathBuf| 0 <= i < t2.len() && #[trigger] includes_path(t2[i], q) implies g.adjacency@.contains_key(q) && g.adjacency@[q]@.contains(i as usize) by {
        let olds = if g0.adjacency@.contains_key(p) { g0.adjacency@[p]@ } else { seq![] };
        let k = choose|k: int| 0 <= k < t2[i].targets.len() && #[trigger] t2[i].targets[k] == q;
        if i == tr.len() - 1 && k == tr[i].targets.len() {
            assert(g.adjacency@[p]@[olds.len() as int] == i as usize);
        } else {
            assert(tr[i].targets[k] == q);
            assert(includes_path(tr[i], q));
            assert(g0.adjacency@.contains_key(q));
            if q == p {
                let m = choose|m: int| 0 <= m < g0.adjacency@[q]@.len() && g0.adjacency@[q]@[m] == i as usize;
                assert(g.adjacency@[q]@[m] == i as usize);
            }
        }
    }
    assert forall|q: PathBuf, k: int| #![trigger g.adjacency@[q]@[k]] g.adjacency@.contains_key(q) && 0 <= k < g.adjacency@[q]@.len() implies g.adjacency@[q]@[k] < g.nodes@.len() by {
        if q != p { assert(g0.adjacency@.contains_key(q)); assert(g0.adjacency@[q]@[k] < g0.nodes@.len()); }
        else if g0.adjacency@.contains_key(p) && k < g0.adjacency@[p]@.len() { assert(g0.adjacency@[p]@[k] < g0.nodes@.len()); }
    }
    assert forall|i: int| 0 <= i < t2.len() implies (#[trigger] g.nodes@[i]).path == t2[i].path.canon_or_self() && g.nodes@[i].custom_gates_pragma == t2[i].ast.custom_gates by {
        assert(g0.nodes@[i].path == tr[i].path.canon_or_self());
    }
    assert forall|i: int| 0 <= i < t2.len() && (#[trigger] t2[i]).ast.custom_gates_declared implies g.custom_gates_nodes@.contains(i as usize) by { assert(tr[i].ast.custom_gates_declared); }
}
pub open spec fn with_target(tr: Seq<Visit>, p: PathBuf) -> Seq<Visit> {
    let v = tr.last();
    tr.drop_last().push(Visit { file: v.file, path: v.path, ast: v.ast, targets: v.targets.push(p) })
}
pub open spec fn visits(tr: Seq<Visit>, libs: Seq<PathBuf>, black: Set<PathBuf>) -> bool {
    &&& forall|i: int| 0 <= i < tr.len() ==> (#[trigger] tr[i]).targets_ok(libs)
    &&& forall|i: int, j: int| 0 <= i < j < tr.len() ==> !(#[trigger] tr[i]).is((#[trigger] tr[j]).file)
    &&& forall|p: PathBuf| #[trigger] black.contains(p) == (exists|i: int| 0 <= i < tr.len() && (#[trigger] tr[i]).is(p))
}
// what a successful run has read
pub open spec fn program_of(tr: Seq<Visit>, main: PathBuf, libs: Seq<PathBuf>, compiler: Version, defs: Seq<(FileID, Vec<Definition>)>, warnings: Seq<Report>) -> bool {
    &&& tr.len() == defs.len() && tr.len() > 0 && tr[0].file == main
    &&& forall|i: int| 0 <= i < tr.len() ==> (#[trigger] defs[i]).1 == tr[i].ast.definitions
    // versions
    &&& forall|i: int| 0 <= i < tr.len() ==> (#[trigger] tr[i]).version_ok(compiler)
    &&& warnings.len() == missing(tr)
    &&& forall|i: int| 0 <= i < warnings.len() ==> (#[trigger] warnings[i]).code is NoCompilerVersionWarning && !warnings[i].is_error
    // includes: every one resolved, each file read once
    &&& forall|i: int| 0 <= i < tr.len() ==> (#[trigger] tr[i]).targets_ok(libs) && tr[i].targets.len() == tr[i].ast.includes@.len()
    &&& forall|i: int, j: int| 0 <= i < j < tr.len() ==> !(#[trigger] tr[i]).is((#[trigger] tr[j]).file)
    &&& forall|i: int, p: PathBuf| 0 <= i < tr.len() && #[trigger] includes_path(tr[i], p) ==> exists|j: int| 0 <= j < tr.len() && (#[trigger] tr[j]).is(p)
    // custom templates
    &&& forall|w: Seq<int>| !#[trigger] chain(tr, w)
}
%end
%fn check_number_version ret=r
ensures
    match version_file {
        Some(v) => if accepted(v, version_compiler) { r is Ok && r->Ok_0@.len() == 0 } else { r is Err && r->Err_0.code is CompilerVersionError && r->Err_0.is_error },
        None => r is Ok && r->Ok_0@.len() == 1 && r->Ok_0@[0].code is NoCompilerVersionWarning && !r->Ok_0@[0].is_error,
    }
%fn check_custom_gates_version ret=r
ensures r is Ok == custom_ok(version_file, version_compiler), r is Err ==> r->Err_0.code is CustomGatesVersionError && r->Err_0.is_error
%fn find_file ret=r
ensures
    r.0 == (exists|i: int| 0 <= i < ext_link_libraries@.len() && readable(join(#[trigger] ext_link_libraries@[i], crr_file))),
    r.0 ==> r.2 == contents(r.3) && readable(r.3) && exists|i: int| 0 <= i < ext_link_libraries@.len() && r.3 == join(#[trigger] ext_link_libraries@[i], crr_file)
        && forall|j: int| 0 <= j < i ==> !readable(join(#[trigger] ext_link_libraries@[j], crr_file)),
%loop 0
    0 <= i <= ext_link_libraries@.len(),
    forall|j: int| 0 <= j < i ==> !readable(join(#[trigger] ext_link_libraries@[j], crr_file)),
    found ==> i < ext_link_libraries@.len() && crr_str_file == join(ext_link_libraries@[i as int], crr_file) && readable(crr_str_file) && src == contents(crr_str_file),
    decreases ext_link_libraries@.len() - i + if found { 0int } else { 1int }
%fn run_parser ret=r
ensures r is Ok ==> exists|tr: Seq<Visit>| #[trigger] program_of(tr, path_of(file), link_libraries@, version_of(version@), r->Ok_0.0.definitions(), r->Ok_0.1@)
%subst definitions = Vec::new() => definitions = Vec::<(FileID, Vec<Definition>)>::new()
%subst warnings = Vec::new() => warnings = Vec::<Report>::new()
%at pre_loop 0
let ghost mut tr: Seq<Visit> = Seq::empty();
let ghost mut black0: Set<PathBuf> = file_stack.black_paths@;
let ghost libs = link_libraries@;
let ghost vc = version_of(version@);
proof { assert(graph_of(&includes_graph, tr)); assert(file_stack.stack@[0] == path_of(file)); }
%loop 0
    libs == link_libraries@, vc == version_of(version@),
    graph_of(&includes_graph, tr),
    visits(tr, libs, file_stack.black_paths@),
    definitions@.len() == tr.len(),
    forall|i: int| 0 <= i < tr.len() ==> (#[trigger] definitions@[i]).1 == tr[i].ast.definitions,
    forall|i: int| 0 <= i < tr.len() ==> (#[trigger] tr[i]).version_ok(vc) && tr[i].targets.len() == tr[i].ast.includes@.len(),
    warnings@.len() == missing(tr),
    forall|i: int| 0 <= i < warnings@.len() ==> (#[trigger] warnings@[i]).code is NoCompilerVersionWarning && !warnings@[i].is_error,
    forall|i: int, p: PathBuf| 0 <= i < tr.len() && #[trigger] includes_path(tr[i], p) ==> file_stack.stack@.contains(p) || file_stack.black_paths@.contains(p),
    tr.len() == 0 && file_stack.stack@.len() > 0 ==> file_stack.stack@ == seq![path_of(file)] && file_stack.stack@.contains(path_of(file)),
    tr.len() > 0 ==> tr[0].file == path_of(file),
    tr.len() == 0 ==> main_components@.len() == 0,
    black0 == file_stack.black_paths@,
ensures file_stack.stack@.len() == 0,
%at loop_start 0
let ghost tr0 = tr;
let ghost asked = crr_file;
%at after_let program 0
let ghost ast = program;
let ghost g0 = includes_graph;
let ghost v0 = Visit { file: asked, path: crr_str_file, ast: program, targets: Seq::empty() };
%at after_call add_node 0
proof { lemma_graph_node(&g0, &includes_graph, tr0, v0); tr = tr0.push(v0); }
%loop 1
    graph_of(&includes_graph, tr),
    tr.len() == tr0.len() + 1, tr.drop_last() == tr0,
    tr.last().file == asked, tr.last().path == v0.path, tr.last().ast == ast,
    tr.last().targets.len() == it_1.pos(), it_1.items() == ast.includes@,
    tr.last().targets_ok(libs),
    file_stack.current_location == parent(asked),
    forall|i: int, p: PathBuf| 0 <= i < tr.len() && #[trigger] includes_path(tr[i], p) ==> file_stack.stack@.contains(p) || file_stack.black_paths@.contains(p),
    file_stack.black_paths@ == black1,
%at pre_loop 1
let ghost black1 = file_stack.black_paths@;
proof {
    assert(tr.drop_last() =~= tr0);
    assert forall|i: int, p: PathBuf| 0 <= i < tr.len() && #[trigger] includes_path(tr[i], p) implies file_stack.stack@.contains(p) || file_stack.black_paths@.contains(p) by {
        if i < tr0.len() { assert(tr[i] == tr0[i]); assert(includes_path(tr0[i], p)); }
    }
}
%at loop_start 1
let ghost stack0 = file_stack.stack@;
let ghost tr1 = tr;
let ghost g1 = includes_graph;
%at after_let path_include 0
let ghost target = locate(seq![parent(asked)] + libs, path_of(ast.includes@[it_1.pos() - 1]))->0;
%at loop_end 1
proof {
    lemma_graph_edge(&g1, &includes_graph, tr1, target);
    tr = with_target(tr1, target);
    assert(tr.drop_last() =~= tr1.drop_last());
    assert forall|i: int, p: PathBuf| 0 <= i < tr.len() && #[trigger] includes_path(tr[i], p) implies file_stack.stack@.contains(p) || file_stack.black_paths@.contains(p) by {
        let k = choose|k: int| 0 <= k < tr[i].targets.len() && #[trigger] tr[i].targets[k] == p;
        if i == tr.len() - 1 && k == tr1.last().targets.len() {
            assert(p == target);
            assert(stack0.push(p)[stack0.len() as int] == p);
        } else {
            assert(tr1[i].targets[k] == p);
            assert(includes_path(tr1[i], p));
            if stack0.contains(p) {
                let m = choose|m: int| 0 <= m < stack0.len() && stack0[m] == p;
                assert(stack0.push(target)[m] == p);
            }
        }
    }
}
%at loop_end 0
proof {
    assert(tr.drop_last() =~= tr0);
    assert forall|i: int| 0 <= i < tr.len() implies (#[trigger] tr[i]).version_ok(vc) && tr[i].targets.len() == tr[i].ast.includes@.len() by { if i < tr0.len() { assert(tr[i] == tr0[i]); } }
    assert forall|i: int| 0 <= i < tr.len() implies (#[trigger] tr[i]).targets_ok(libs) by { if i < tr0.len() { assert(tr[i] == tr0[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < tr.len() implies !(#[trigger] tr[i]).is((#[trigger] tr[j]).file) by {
        assert(tr[i] == tr0[i]);
        if j < tr0.len() { assert(tr[j] == tr0[j]); } else { assert(!black0.contains(asked)); }
    }
    assert forall|p: PathBuf| #[trigger] file_stack.black_paths@.contains(p) == (exists|i: int| 0 <= i < tr.len() && (#[trigger] tr[i]).is(p)) by {
        if black0.contains(p) { let i = choose|i: int| 0 <= i < tr0.len() && (#[trigger] tr0[i]).is(p); assert(tr[i] == tr0[i]); }
        if exists|i: int| 0 <= i < tr.len() && (#[trigger] tr[i]).is(p) {
            let i = choose|i: int| 0 <= i < tr.len() && (#[trigger] tr[i]).is(p);
            if i < tr0.len() { assert(tr[i] == tr0[i]); assert(black0.contains(p)); }
        }
        if !black0.contains(p) && file_stack.black_paths@.contains(p) { assert(tr[tr0.len() as int].is(p)); }
    }
    assert forall|i: int| 0 <= i < tr.len() implies (#[trigger] definitions@[i]).1 == tr[i].ast.definitions by { if i < tr0.len() { assert(tr[i] == tr0[i]); } }
    assert(tr0.len() > 0 ==> tr[0] == tr0[0]);
    black0 = file_stack.black_paths@;
}
%attr verifier::allow_complex_invariants
%loop 2
    acc_2@.len() == it_2.pos(),
%at after_let errors 0
proof {
    if errors@.len() == 0 {
        assert forall|w: Seq<int>| !#[trigger] chain(tr, w) by { if chain(tr, w) { lemma_chain_bad(&includes_graph, tr, w); } }
    }
    assert forall|i: int, p: PathBuf| 0 <= i < tr.len() && #[trigger] includes_path(tr[i], p) implies exists|j: int| 0 <= j < tr.len() && (#[trigger] tr[j]).is(p) by {
        assert(file_stack.black_paths@.contains(p));
    }
}
%at before_let result_program_archive 0
proof {
    assert(program_of(tr, path_of(file), link_libraries@, vc, definitions@, warnings@));
}
let ghost defs = definitions@;
%at after_let program_archive_result 0
proof {
    assert(vc == version_of(version@));
    assert(program_archive.definitions() == defs);
    assert(program_of(tr, path_of(file), link_libraries@, version_of(version@), program_archive.definitions(), warnings@));
}
%at tail
proof { if r__ is Ok { assert(program_of(tr, path_of(file), link_libraries@, version_of(version@), r__->Ok_0.0.definitions(), r__->Ok_0.1@)); } }
%end
