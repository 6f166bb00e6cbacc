%use ops.rs
%use iter.rs
%use text.rs
%rename_method len_utf8=vlen_utf8
%rename_method chars=vchars
%path String::new=VString::new
%mod parser_logic
%source parser/src/parser_logic.rs
%ops off
%verbatim
// reports are opaque except for what this property talks about
pub type FileID = usize;
pub enum ReportCode { UnclosedComment }
pub struct Report { pub code: ReportCode, pub location: std::ops::Range<usize>, pub file: usize }
pub type ReportCollection = Vec<Report>;
pub fn produce_report(c: ReportCode, location: std::ops::Range<usize>, f: FileID) -> (r: Report)
    ensures r.code == c, r.location == location, r.file == f
{ Report { code: c, location, file: f } }
pub trait VStr { fn vchars(&self) -> VChars; }
impl VStr for str {
    #[verifier::external_body]
    fn vchars(&self) -> (r: VChars) ensures r.rest() == self@ { unimplemented!() }
}

pub enum Mode { Code, Line, Block }
pub open spec fn blanks(n: int) -> Seq<char> { Seq::new(n as nat, |i: int| ' ') }
pub open spec fn starts(s: Seq<char>, a: char, b: char) -> bool { s.len() >= 2 && s[0] == a && s[1] == b }
// reference: the comment-free text
pub open spec fn clean(s: Seq<char>, m: Mode) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else {
        match m {
            Mode::Code =>
                if starts(s, '/', '/') { blanks(2) + clean(s.skip(2), Mode::Line) }
                else if starts(s, '/', '*') { blanks(2) + clean(s.skip(2), Mode::Block) }
                else { seq![s[0]] + clean(s.skip(1), Mode::Code) },
            Mode::Line =>
                if s[0] == '\n' { seq!['\n'] + clean(s.skip(1), Mode::Code) }
                else { blanks(u8len(s[0])) + clean(s.skip(1), Mode::Line) },
            Mode::Block =>
                if starts(s, '*', '/') { blanks(2) + clean(s.skip(2), Mode::Code) }
                else { blanks(u8len(s[0])) + clean(s.skip(1), Mode::Block) },
        }
    }
}
// byte offset just after the opening of a comment that is never closed
pub open spec fn unclosed(s: Seq<char>, m: Mode, at: int, opened: int) -> Option<int> decreases s.len() {
    if s.len() == 0 { if m is Block { Some(opened) } else { None } } else {
        match m {
            Mode::Code =>
                if starts(s, '/', '/') { unclosed(s.skip(2), Mode::Line, at + 2, opened) }
                else if starts(s, '/', '*') { unclosed(s.skip(2), Mode::Block, at + 2, at + 2) }
                else { unclosed(s.skip(1), Mode::Code, at + u8len(s[0]), opened) },
            Mode::Line =>
                if s[0] == '\n' { unclosed(s.skip(1), Mode::Code, at + 1, opened) }
                else { unclosed(s.skip(1), Mode::Line, at + u8len(s[0]), opened) },
            Mode::Block =>
                if starts(s, '*', '/') { unclosed(s.skip(2), Mode::Code, at + 2, opened) }
                else { unclosed(s.skip(1), Mode::Block, at + u8len(s[0]), opened) },
        }
    }
}
pub proof fn lemma_bytes_append(a: Seq<char>, b: Seq<char>)
    ensures bytes(a + b) == bytes(a) + bytes(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b == b); } else {
        assert((a + b).drop_first() == a.drop_first() + b);
        lemma_bytes_append(a.drop_first(), b);
    }
}
pub proof fn lemma_bytes_blanks(n: int) requires n >= 0 ensures bytes(blanks(n)) == n decreases n
{
    if n > 0 { assert(blanks(n).drop_first() == blanks(n - 1)); lemma_bytes_blanks(n - 1); }
}
pub proof fn lemma_bytes_one(c: char) ensures bytes(seq![c]) == u8len(c)
{
    assert(seq![c].drop_first() == Seq::<char>::empty());
    assert(bytes(seq![c].drop_first()) == 0);
}
pub proof fn lemma_bytes_step(s: Seq<char>, n: int) requires 0 <= n <= s.len() ensures bytes(s) == bytes(s.take(n)) + bytes(s.skip(n)) {
    assert(s == s.take(n) + s.skip(n));
    lemma_bytes_append(s.take(n), s.skip(n));
}
// the cleaned text has the byte length of the source, from any point on
pub proof fn lemma_clean_bytes(s: Seq<char>, m: Mode)
    ensures bytes(clean(s, m)) == bytes(s)
    decreases s.len()
{
    if s.len() > 0 {
        let two = s.take(2); 
        if s.len() >= 2 {
            assert(s.take(2) == seq![s[0]] + seq![s[1]]);
            lemma_bytes_append(seq![s[0]], seq![s[1]]); lemma_bytes_one(s[0]); lemma_bytes_one(s[1]);
            lemma_bytes_step(s, 2);
        }
        lemma_bytes_step(s, 1); assert(s.take(1) == seq![s[0]]); lemma_bytes_one(s[0]);
        lemma_bytes_blanks(2); lemma_bytes_blanks(u8len(s[0])); lemma_bytes_one('\n');
        let two_way = (m is Code && (starts(s, '/', '/') || starts(s, '/', '*'))) || (m is Block && starts(s, '*', '/'));
        if two_way {
            let m2 = if m is Block { Mode::Code } else if starts(s, '/', '/') { Mode::Line } else { Mode::Block };
            lemma_clean_bytes(s.skip(2), m2);
            lemma_bytes_append(blanks(2), clean(s.skip(2), m2));
        } else {
            let m2 = if m is Line && s[0] == '\n' { Mode::Code } else { m };
            lemma_clean_bytes(s.skip(1), m2);
            lemma_bytes_append(blanks(u8len(s[0])), clean(s.skip(1), m2));
            lemma_bytes_append(seq![s[0]], clean(s.skip(1), m2));
        }
    }
}
// one-step unfoldings used by the proof of the loop
pub proof fn lemma_star(s: Seq<char>, k: int, at: int, o: int)
    requires 0 <= k < s.len(), forall|i: int| 0 <= i <= k ==> s[i] == '*'
    ensures clean(s, Mode::Block) == blanks(k) + clean(s.skip(k), Mode::Block),
        unclosed(s, Mode::Block, at, o) == unclosed(s.skip(k), Mode::Block, at + k, o)
    decreases k
{
    if k == 0 { assert(s.skip(0) == s); assert(blanks(0) + clean(s, Mode::Block) == clean(s, Mode::Block)); }
    else {
        lemma_star(s.skip(1), k - 1, at + 1, o);
        assert(s.skip(1).skip(k - 1) == s.skip(k));
        assert(blanks(1) + blanks(k - 1) == blanks(k));
        assert(blanks(1) + (blanks(k - 1) + clean(s.skip(k), Mode::Block)) == blanks(k) + clean(s.skip(k), Mode::Block));
    }
}
pub open spec fn mode(st: int) -> Mode { if st == 0 { Mode::Code } else if st == 1 { Mode::Line } else { Mode::Block } }
// what the loop preserves
pub open spec fn inv(src: Seq<char>, pp: Seq<char>, rest: Seq<char>, st: int, bs: int) -> bool {
    &&& 0 <= st <= 2
    &&& pp + clean(rest, mode(st)) == clean(src, Mode::Code) || (st == 2 && rest.len() == 0)
    &&& unclosed(rest, mode(st), bytes(pp), bs) == unclosed(src, Mode::Code, 0, 0)
}
pub proof fn lemma_push(a: Seq<char>, c: char, b: Seq<char>)
    ensures a.push(c) + b == a + (seq![c] + b), bytes(a.push(c)) == bytes(a) + u8len(c)
{
    assert(a.push(c) == a + seq![c]);
    assert(a.push(c) + b =~= a + (seq![c] + b));
    lemma_bytes_append(a, seq![c]); lemma_bytes_one(c);
}
pub proof fn lemma_push_blanks(a: Seq<char>, n: int, b: Seq<char>)
    requires n >= 0
    ensures (a + blanks(n)) + b == a + (blanks(n) + b), bytes(a + blanks(n)) == bytes(a) + n,
        (a + blanks(n)).push(' ') == a + blanks(n + 1), a + blanks(0) == a, a.push(' ') == a + blanks(1), a.push(' ').push(' ') == a + blanks(2)
{
    assert((a + blanks(n)) + b =~= a + (blanks(n) + b));
    lemma_bytes_append(a, blanks(n)); lemma_bytes_blanks(n);
    assert((a + blanks(n)).push(' ') =~= a + blanks(n + 1));
    assert(a + blanks(0) =~= a); assert(a.push(' ') =~= a + blanks(1)); assert(a.push(' ').push(' ') =~= a + blanks(2));
}
// one iteration of the loop: the possible ways to consume input and produce output
pub open spec fn step(p0: Seq<char>, s: Seq<char>, st0: int, bs0: int, p1: Seq<char>, rest: Seq<char>, st1: int, bs1: int, j: int) -> bool {
    ||| st0 == 0 && starts(s, '/', '/') && p1 == p0.push(' ').push(' ') && rest == s.skip(2) && st1 == 1 && bs1 == bs0
    ||| st0 == 0 && starts(s, '/', '*') && p1 == p0.push(' ').push(' ') && rest == s.skip(2) && st1 == 2 && bs1 == bytes(p1)
    ||| st0 == 0 && s[0] == '/' && s.len() >= 2 && s[1] != '/' && s[1] != '*' && p1 == p0.push(s[0]).push(s[1]) && rest == s.skip(2) && st1 == 0 && bs1 == bs0
    ||| st0 == 0 && (s[0] != '/' || s.len() == 1) && p1 == p0.push(s[0]) && rest == s.skip(1) && st1 == 0 && bs1 == bs0
    ||| st0 == 1 && s[0] == '\n' && p1 == p0.push('\n') && rest == s.skip(1) && st1 == 0 && bs1 == bs0
    ||| st0 == 1 && s[0] != '\n' && p1 == p0 + blanks(u8len(s[0])) && rest == s.skip(1) && st1 == 1 && bs1 == bs0
    ||| st0 == 2 && s[0] != '*' && p1 == p0 + blanks(u8len(s[0])) && rest == s.skip(1) && st1 == 2 && bs1 == bs0
    ||| st0 == 2 && stars(s, j) && st1 == 2 && s.skip(j + 1).len() == 0 && rest.len() == 0 && bs1 == bs0
    ||| st0 == 2 && stars(s, j) && st1 == 0 && s.len() > j + 1 && s[j + 1] == '/' && p1 == (p0 + blanks(j)).push(' ').push(' ') && rest == s.skip(j + 2) && bs1 == bs0
    ||| st0 == 2 && stars(s, j) && st1 == 2 && s.len() > j + 1 && s[j + 1] != '/' && s[j + 1] != '*' && p1 == (p0 + blanks(j)).push(' ') + blanks(u8len(s[j + 1])) && rest == s.skip(j + 2) && bs1 == bs0
}
pub open spec fn stars(s: Seq<char>, j: int) -> bool { 0 <= j < s.len() && forall|i: int| 0 <= i <= j ==> s[i] == '*' }
#[verifier::rlimit(60)]
pub proof fn lemma_iter(src: Seq<char>, p0: Seq<char>, s: Seq<char>, st0: int, bs0: int, p1: Seq<char>, rest: Seq<char>, st1: int, bs1: int, j: int)
    requires s.len() > 0, inv(src, p0, s, st0, bs0), step(p0, s, st0, bs0, p1, rest, st1, bs1, j)
    ensures inv(src, p1, rest, st1, bs1)
{
    let c1 = clean(rest, mode(st1));
    if s.len() >= 2 { assert(s.skip(1).skip(1) =~= s.skip(2)); assert(s.skip(1)[0] == s[1]); }
    if st0 == 2 && stars(s, j) {
        lemma_star(s, j, bytes(p0), bs0);
        let t = s.skip(j);
        assert(t[0] == '*');
        if s.len() > j + 1 {
            assert(t[1] == s[j + 1]); assert(t.skip(2) =~= s.skip(j + 2)); assert(t.skip(1) =~= s.skip(j + 1)); assert(t.skip(1).skip(1) =~= s.skip(j + 2)); assert(t.skip(1)[0] == s[j + 1]);
            let q = p0 + blanks(j);
            lemma_push_blanks(p0, j, clean(t, Mode::Block));
            if s[j + 1] == '/' {
                lemma_push_blanks(q, 0, c1); lemma_push_blanks(q, 1, c1); lemma_push_blanks(q, 2, c1);
                assert(clean(t, Mode::Block) == blanks(2) + c1);
            } else {
                let n = u8len(s[j + 1]);
                lemma_push_blanks(q, 0, c1); lemma_push_blanks(q, 1, clean(t.skip(1), Mode::Block));
                lemma_push_blanks(q + blanks(1), n, c1);
                assert(clean(t, Mode::Block) == blanks(1) + clean(t.skip(1), Mode::Block));
                assert(clean(t.skip(1), Mode::Block) == blanks(n) + c1);
                assert(unclosed(t, Mode::Block, bytes(p0) + j, bs0) == unclosed(t.skip(1), Mode::Block, bytes(p0) + j + 1, bs0));
                assert(unclosed(t.skip(1), Mode::Block, bytes(p0) + j + 1, bs0) == unclosed(rest, Mode::Block, bytes(p0) + j + 1 + n, bs0));
            }
        } else {
            assert(t.skip(1).len() == 0);
            assert(unclosed(t, Mode::Block, bytes(p0) + j, bs0) == unclosed(t.skip(1), Mode::Block, bytes(p0) + j + 1, bs0));
        }
    } else if st0 == 0 && (starts(s, '/', '/') || starts(s, '/', '*')) {
        lemma_push_blanks(p0, 2, c1);
    } else if st0 == 0 && s[0] == '/' && s.len() >= 2 {
        lemma_push(p0, s[0], clean(s.skip(1), Mode::Code)); lemma_push(p0.push(s[0]), s[1], c1);
        assert(clean(s, Mode::Code) == seq![s[0]] + clean(s.skip(1), Mode::Code));
        assert(clean(s.skip(1), Mode::Code) == seq![s[1]] + c1);
        assert(unclosed(s, Mode::Code, bytes(p0), bs0) == unclosed(s.skip(1), Mode::Code, bytes(p0) + 1, bs0));
        assert(unclosed(s.skip(1), Mode::Code, bytes(p0) + 1, bs0) == unclosed(rest, Mode::Code, bytes(p0) + 1 + u8len(s[1]), bs0));
    } else if st0 == 0 || (st0 == 1 && s[0] == '\n') {
        lemma_push(p0, s[0], c1);
    } else {
        lemma_push_blanks(p0, u8len(s[0]), c1);
    }
}
%fn preprocess
ensures
    r is Ok <==> unclosed(expr@, Mode::Code, 0, 0) is None,
    r is Ok ==> r->Ok_0@ == clean(expr@, Mode::Code) && bytes(r->Ok_0@) == bytes(expr@),
    r is Err ==> r->Err_0@.len() == 1 && r->Err_0@[0].code is UnclosedComment && r->Err_0@[0].file == file_id
        && r->Err_0@[0].location.start == unclosed(expr@, Mode::Code, 0, 0)->0 && r->Err_0@[0].location.end == r->Err_0@[0].location.start
%subst Result<String => Result<VString
%at start
proof { lemma_clean_bytes(expr@, Mode::Code); assert(Seq::<char>::empty() + clean(expr@, Mode::Code) == clean(expr@, Mode::Code)); }
%attr verifier::allow_complex_invariants
%loop 0
invariant inv(expr@, pp@, it.rest(), state as int, block_start as int),
ensures it.rest().len() == 0, inv(expr@, pp@, it.rest(), state as int, block_start as int),
decreases it.rest().len()
%at loop_start 0
let ghost p0 = pp@; let ghost r0 = it.rest(); let ghost s0 = seq![c0] + it.rest(); let ghost st0 = state as int; let ghost bs0 = block_start as int;
let ghost mut j: int = 0;
proof {
    assert(s0.drop_first() == r0); assert(s0.skip(1) =~= r0); assert(s0[0] == c0); if r0.len() > 0 { assert(s0.skip(2) =~= r0.drop_first()); }
    assert(r0.len() > 0 ==> s0[1] == r0[0]);
    if st0 == 0 && c0 == '/' && r0.len() == 0 { lemma_iter(expr@, p0, s0, st0, bs0, p0.push(c0), r0, 0, bs0, 0); }
}
%loop 1
invariant stars(s0, j), pp@ == p0 + blanks(j), 
 it.rest().len() <= r0.len(),
 next is Some ==> s0.skip(j + 1) == seq![next->0] + it.rest(), next is None ==> s0.skip(j + 1).len() == 0 && it.rest().len() == 0,
decreases it.rest().len() + (if next is Some { 1int } else { 0 })
%at before_loop 1
proof { lemma_push_blanks(p0, 0, seq![]); if next is Some { assert(s0.skip(1) =~= seq![next->0] + it.rest()); } }
%at loop_start 1
let ghost rr = it.rest();
proof { lemma_push_blanks(p0, j, seq![]); assert(s0.skip(j + 1)[0] == s0[j + 1]); assert(s0.skip(j + 1).drop_first() =~= s0.skip(j + 2)); assert((seq![next->0] + it.rest()).drop_first() =~= it.rest()); }
%at loop_end 1
proof { j = j + 1; if next is Some { assert(s0.skip(j + 1) =~= seq![next->0] + it.rest()); } }
%at post_loop 1
proof {
    if next is Some { assert(s0.skip(j + 1)[0] == s0[j + 1]); assert((seq![next->0] + it.rest()).drop_first() =~= it.rest()); assert(s0.skip(j + 1).drop_first() =~= s0.skip(j + 2)); }
}
%at pre_loop 2
let ghost p2 = pp@;
%loop 2
pp@ == p2 + blanks(it_2.pos() as int),
%at before_loop 2
proof { lemma_push_blanks(p2, 0, seq![]); }
%at loop_start 2
proof { lemma_push_blanks(p2, it_2.pos() - 1, seq![]); }
%at pre_loop 3
let ghost p3 = pp@;
%loop 3
pp@ == p3 + blanks(it_3.pos() as int),
%at before_loop 3
proof { lemma_push_blanks(p3, 0, seq![]); }
%at loop_start 3
proof { lemma_push_blanks(p3, it_3.pos() - 1, seq![]); }
%at loop_end 0
proof { lemma_iter(expr@, p0, s0, st0, bs0, pp@, it.rest(), state as int, block_start as int, j); }
%end
