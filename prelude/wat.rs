// Text of data segments: "\xx" for every byte.
pub open spec fn hexv(c: char) -> int {
    if '0' <= c && c <= '9' { c as int - '0' as int } else if 'a' <= c && c <= 'f' { c as int - 'a' as int + 10 } else if 'A' <= c && c <= 'F' { c as int - 'A' as int + 10 } else { -1 }
}
pub open spec fn wf(t: Seq<char>) -> bool decreases t.len() {
    t.len() == 0 || (t.len() >= 3 && t[0] == '\\' && hexv(t[1]) >= 0 && hexv(t[2]) >= 0 && wf(t.skip(3)))
}
// the bytes a text stands for
pub open spec fn datum(t: Seq<char>) -> Seq<u8> decreases t.len() {
    if t.len() < 3 { Seq::empty() } else { seq![(16 * hexv(t[1]) + hexv(t[2])) as u8] + datum(t.skip(3)) }
}
pub proof fn lemma_datum_add(a: Seq<char>, b: Seq<char>) requires wf(a), wf(b) ensures wf(a + b), datum(a + b) == datum(a) + datum(b) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(datum(a) + datum(b) =~= datum(b)); }
    else {
        lemma_datum_add(a.skip(3), b);
        assert((a + b).skip(3) =~= a.skip(3) + b);
        assert(datum(a + b) =~= datum(a) + datum(b));
    }
}
pub open spec fn hexd(d: int) -> char { if d < 10 { ((48 + d) as u8) as char } else { ((87 + d) as u8) as char } }
// digits, most significant first
pub open spec fn hex(n: int) -> Seq<char> decreases n { if n < 16 { seq![hexd(n)] } else { hex(n / 16).push(hexd(n % 16)) } }
pub open spec fn hexpad(n: int, k: nat) -> Seq<char> decreases k { if k == 0 { Seq::empty() } else { hexpad(n / 16, (k - 1) as nat).push(hexd(n % 16)) } }
pub open spec fn pow16(k: nat) -> int decreases k { if k == 0 { 1 } else { 16 * pow16((k - 1) as nat) } }
pub proof fn lemma_pow16(k: nat) ensures pow16(2 * k) == pow256(k), pow16(k) >= 1 decreases k
{
    if k > 0 { lemma_pow16((k - 1) as nat); assert(pow16(2 * k) == 16 * pow16((2 * k - 1) as nat)); assert(pow16((2 * k - 1) as nat) == 16 * pow16((2 * k - 2) as nat)); }
}
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80 }
pub uninterp spec fn u8size(s: Seq<char>) -> int;
pub broadcast proof fn axiom_u8size(s: Seq<char>) requires ascii(s) ensures #[trigger] u8size(s) == s.len() { admit(); }
pub open spec fn rep(s: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { rep(s, (n - 1) as nat) + s } }
pub trait VRepeat { fn vrepeat(&self, n: usize) -> VString; }
impl VRepeat for str { #[verifier::external_body] fn vrepeat(&self, n: usize) -> (r: VString) ensures r@ == rep(self@, n as nat) { unimplemented!() } }
impl VString {
    #[verifier::external_body]
    pub fn push_str<S: VDisplay + ?Sized>(&mut self, s: &S) ensures final(self)@ == old(self)@ + s.vdisp() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == u8size(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vslice(&self, a: usize, b: usize) -> (r: &str) requires ascii(self@), a <= b <= self@.len() ensures r@ == self@.subrange(a as int, b as int) { unimplemented!() }
}
impl std::ops::Deref for VString { type Target = str; #[verifier::external_body] fn deref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
impl BigInt {
    #[verifier::external_body]
    pub fn to_str_radix(&self, radix: u32) -> (r: VString) requires radix == 16, self@ >= 0 ensures r@ == hex(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_bytes(b: &[u8], radix: u32) -> (r: Option<BigInt>) ensures b@.len() > 0 && 2 <= radix <= 36 && plain(b@, radix as int) ==> r is Some && r->0@ == digits_val(b@, radix as int) { unimplemented!() }
}
pub open spec fn plain(b: Seq<u8>, radix: int) -> bool { radix >= 10 && forall|i: int| 0 <= i < b.len() ==> 48 <= #[trigger] b[i] <= 57 }
pub open spec fn digits_val(b: Seq<u8>, radix: int) -> int decreases b.len() { if b.len() == 0 { 0 } else { digits_val(b.drop_last(), radix) * radix + (b.last() as int - 48) } }
pub proof fn lemma_hex(n: int, k: nat) requires 0 <= n < pow16(k), k >= 1 ensures hex(n).len() <= k, rep(seq!['0'], (k - hex(n).len()) as nat) + hex(n) == hexpad(n, k), ascii(hexpad(n, k)), hexpad(n, k).len() == k decreases k
{
    if n < 16 {
        lemma_zeros((k - 1) as nat);
        assert(hexpad(n, k) == hexpad(0, (k - 1) as nat).push(hexd(n)));
        assert(rep(seq!['0'], (k - 1) as nat) + hex(n) =~= hexpad(n, k));
    } else {
        if k == 1 { assert(pow16(1) == 16 * pow16(0)); }
        lemma_hex(n / 16, (k - 1) as nat);
        let z = rep(seq!['0'], (k - hex(n).len()) as nat);
        assert(z + hex(n) =~= (z + hex(n / 16)).push(hexd(n % 16)));
    }
}
pub proof fn lemma_zeros(k: nat) ensures rep(seq!['0'], k) == hexpad(0, k), rep(seq!['0'], k).len() == k, ascii(hexpad(0, k)) decreases k
{ if k > 0 { lemma_zeros((k - 1) as nat); assert(hexpad(0, k) =~= rep(seq!['0'], (k - 1) as nat) + seq!['0']); } }
pub proof fn lemma_hexpad_len(n: int, k: nat) ensures hexpad(n, k).len() == k decreases k { if k > 0 { lemma_hexpad_len(n / 16, (k - 1) as nat); } }
// the first digits are those of a quotient
pub proof fn lemma_hexpad_take(n: int, k: nat, j: nat) requires j <= k, n >= 0 ensures hexpad(n, k).take(j as int) == hexpad(n / pow16((k - j) as nat), j) decreases k - j
{
    lemma_hexpad_len(n, k);
    if j == k { assert(hexpad(n, k).take(j as int) =~= hexpad(n, k)); assert(n / 1 == n); }
    else {
        lemma_hexpad_len(n / 16, (k - 1) as nat);
        lemma_hexpad_take(n / 16, (k - 1) as nat, j);
        assert(hexpad(n, k).take(j as int) =~= hexpad(n / 16, (k - 1) as nat).take(j as int));
        let q = pow16((k - 1 - j) as nat);
        lemma_pow16((k - 1 - j) as nat);
        assert((n / 16) / q == n / (16 * q)) by { vstd::arithmetic::div_mod::lemma_div_denominator(n, 16, q); }
    }
}
pub trait VNum: Sized { spec fn num(self) -> int; }
impl VNum for BigInt { open spec fn num(self) -> int { self@ } }
pub uninterp spec fn numeral(s: Seq<char>) -> bool;
pub uninterp spec fn num_val(s: Seq<char>) -> int;
pub trait VParse { spec fn ptext(&self) -> Seq<char>;
    fn vparse<T: VNum>(&self) -> (r: Result<T, VNumErr>) ensures numeral(self.ptext()) ==> r is Ok && r->Ok_0.num() == num_val(self.ptext()); }
#[derive(Debug)]
pub struct VNumErr { pub x: u8 }
impl VParse for str { open spec fn ptext(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vparse<T: VNum>(&self) -> (r: Result<T, VNumErr>) { unimplemented!() } }
impl VParse for VString { open spec fn ptext(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vparse<T: VNum>(&self) -> (r: Result<T, VNumErr>) { unimplemented!() } }
impl VInt for u64 { open spec fn iv(self) -> int { self as int } }
pub proof fn lemma_hex_ascii(n: int) requires n >= 0 ensures ascii(hex(n)), hex(n).len() >= 1 decreases n
{ if n >= 16 { lemma_hex_ascii(n / 16); } }
impl VShl<usize> for BigInt { type Out = BigInt;
    open spec fn vshl_req(self, r: usize) -> bool { true }
    open spec fn vshl_ens(self, r: usize, o: BigInt) -> bool { o@ == self@ * ipow2(r as nat) }
    #[verifier::external_body] fn vshl(self, r: usize) -> (o: BigInt) { unimplemented!() } }
impl BigInt {
    #[verifier::external_body]
    pub fn to_bytes_be(&self) -> (r: (Sign, Vec<u8>))
        ensures r.1@ == minle(iabs(self@)).reverse(), r.0 == (if self@ > 0 { Sign::Plus } else if self@ < 0 { Sign::Minus } else { Sign::NoSign }) { unimplemented!() }
}
pub trait VBe { spec fn be(self) -> Seq<u8>; fn vbe(self) -> (r: Vec<u8>) ensures r@ == self.be(); }
impl VBe for u64 { open spec fn be(self) -> Seq<u8> { le(self as int, 8).reverse() } #[verifier::external_body] fn vbe(self) -> (r: Vec<u8>) { unimplemented!() } }
impl VBe for u32 { open spec fn be(self) -> Seq<u8> { le(self as int, 4).reverse() } #[verifier::external_body] fn vbe(self) -> (r: Vec<u8>) { unimplemented!() } }
pub trait VReverse<T> { spec fn rv(&self) -> Seq<T>; fn vreverse(&mut self) ensures final(self).rv() == old(self).rv().reverse(); }
impl<T> VReverse<T> for Vec<T> { open spec fn rv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vreverse(&mut self) { unimplemented!() } }
impl VEq<Sign> for Sign { open spec fn veq_spec(&self, o: &Sign) -> bool { *self == *o } #[verifier::external_body] fn veq(&self, o: &Sign) -> (b: bool) { unimplemented!() } #[verifier::external_body] fn vne(&self, o: &Sign) -> (b: bool) { unimplemented!() } }
pub proof fn lemma_rev_rev(s: Seq<u8>) ensures s.reverse().reverse() == s { assert(s.reverse().reverse() =~= s); }
pub broadcast proof fn lemma_rev_rev_b(s: Seq<u8>) ensures (#[trigger] s.reverse().reverse()) == s { assert(s.reverse().reverse() =~= s); }
impl<'a> VEq<&'a str> for VString { open spec fn veq_spec(&self, o: &&'a str) -> bool { self@ == o@ } #[verifier::external_body] fn veq(&self, o: &&'a str) -> (b: bool) { unimplemented!() } #[verifier::external_body] fn vne(&self, o: &&'a str) -> (b: bool) { unimplemented!() } }
pub trait VToVec { fn vto_vec(&self) -> Vec<u8>; }
impl VToVec for Vec<u8> { #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() } }

// the least power of two that is at least l
pub open spec fn np2(l: int) -> int decreases l { if l <= 1 { 1 } else { 2 * np2((l + 1) / 2) } }
pub open spec fn pow2int(k: nat) -> int decreases k { if k == 0 { 1 } else { 2 * pow2int((k - 1) as nat) } }
pub broadcast proof fn lemma_np2(l: int) ensures (#[trigger] np2(l)) >= l, np2(l) >= 1, exists|k: nat| np2(l) == pow2int(k) decreases l
{
    if l > 1 {
        lemma_np2((l + 1) / 2);
        let k = choose|k: nat| np2((l + 1) / 2) == pow2int(k);
        assert(pow2int((k + 1) as nat) == np2(l));
    } else { assert(pow2int(0) == 1); }
}
pub assume_specification[ usize::next_power_of_two ](x: usize) -> (r: usize) requires x <= 0x8000_0000 ensures r == np2(x as int);
// a table of 2^k slots: the readers mask the position
pub open spec fn slots(l: int) -> int { if np2(l) < 256 { 256 } else { np2(l) } }
pub fn vmax(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
// 64-bit FNV-1a, as lz_fnv computes it
pub open spec fn fnv1a(k: u64, b: Seq<u8>) -> u64 decreases b.len() { if b.len() == 0 { k } else { let h = fnv1a(k, b.drop_last()) ^ (b.last() as u64); ((h as int * 0x100000001b3) % 0x1_0000_0000_0000_0000) as u64 } }
pub struct Fnv1a<T> { x: T }
impl Fnv1a<u64> {
    pub uninterp spec fn key(&self) -> u64;
    #[verifier::external_body]
    pub fn with_key(k: u64) -> (r: Fnv1a<u64>) ensures r.key() == k { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, b: &[u8]) ensures final(self).key() == fnv1a(old(self).key(), b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&self) -> (r: u64) ensures r == self.key() { unimplemented!() }
}
pub trait VStrBytes { fn vstrbytes(&self) -> &[u8]; }
impl VStrBytes for str { #[verifier::external_body] fn vstrbytes(&self) -> (r: &[u8]) ensures r@ == utf8(self@) { unimplemented!() } }
